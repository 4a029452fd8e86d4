"""Discharging obligations: z3 (python API, in worker processes), then the cvc5 and z3 binaries."""
import z3, subprocess, os, sys, time, tempfile
from vals import *

def symbols(t, cache):
    i = t.get_id()
    if i in cache: return cache[i][0]
    seen = set(); st = [t]; out = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED: out.add(d.name() + '/' + str(d.arity()))
            st.extend(x.children())
    cache[i] = (out, t)   # keep t alive: ast ids are reused
    return out

def apps_of(ts):
    """all applications f(k) of unary functions over BV64"""
    out = []; seen = set(); st = list(ts)
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 1 and x.arg(0).sort() == z3.BitVecSort(64):
                out.append((x.decl(), x.arg(0)))
            st.extend(x.children())
    return out

def relevant(E, hyps, goal):
    """hypotheses + axioms/facts in the cone of influence of the query"""
    base = [h for h in hyps if not isinstance(h, bool)]
    sc = E.__dict__.setdefault('symc', {})
    fs = base + [z3.Not(goal)]
    # facts, instantiated at the terms that occur
    done = set()
    rounds = 2
    for _ in range(rounds):
        new = []
        if E.facts:
            for d, k in apps_of(fs):
                for fd, fact in E.facts:
                    if fd.eq(d):
                        key = (id(fact), k.get_id())
                        if key in done: continue
                        done.add(key); new.append(fact(k))
        fs += new
        if not new: break
    need = set()
    for f in fs: need |= symbols(f, sc)
    ax = list(E.ax); added = []
    ch = True
    while ch:
        ch = False
        rest = []
        for a in ax:
            s = symbols(a, sc)
            if s & need or not s: added.append(a); need |= s; ch = True
            else: rest.append(a)
        ax = rest
    out = fs + added
    if E.facts:
        new = []
        for d, k in apps_of(added):
            for fd, fact in E.facts:
                if fd.eq(d):
                    key = (id(fact), k.get_id())
                    if key in done: continue
                    done.add(key); new.append(fact(k))
        out += new
    return out

def prove_inproc(E, hyps, goal, timeout):
    fs = relevant(E, hyps, goal)
    if E.mode == 'real':
        import ring
        if ring.prove_unsat(fs, max(2.0, timeout / 1000.0)): return True
    s = mk_solver(fs, E.mode)
    s.set('timeout', timeout)
    for f in fs: s.add(f)
    return s.check() == z3.unsat

def mk_solver(fs, mode):
    return z3.Solver()

def smt2_of(E, ob):
    goal = zb(ob.cond)
    fs = relevant(E, [x for x in ob.pc], goal)
    if E.opts.get('mulabs'): fs = mulabs(fs)
    s = z3.Solver()
    for f in fs: s.add(f)
    return s.to_smt2()

def run_z3(smt, timeout, tactic=None):
    ctx = z3.Context()
    t0 = time.time()
    try:
        if tactic:
            s = tactic(ctx)
        else:
            s = z3.Solver(ctx=ctx)
        s.set('timeout', int(timeout * 1000))
        s.from_string(smt)
        r = str(s.check())
    except z3.Z3Exception as e:
        r = 'unknown'
    return r, time.time() - t0

def run_bin(cmd, smt, timeout):
    t0 = time.time()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(smt); fn = f.name
    try:
        p = subprocess.run(cmd + [fn], capture_output=True, text=True, timeout=timeout + 2)
        out = p.stdout.strip().split('\n')[0]
        r = out if out in ('sat', 'unsat') else 'unknown'
    except subprocess.TimeoutExpired:
        r = 'unknown'
    finally:
        os.unlink(fn)
    return r, time.time() - t0

def run_eq(smt, timeout):
    """as run_z3, after substituting equal array indices and decided conditions (found with nonlinear terms abstracted)"""
    t0 = time.time()
    try:
        fs = list(z3.parse_smt2_string(smt))
        for _ in range(2):
            fs2 = eqpre(fs, t0 + timeout / 2)
            if fs2 is None: break
            fs = fs2
        s = z3.Solver(); s.set('timeout', int(max(1.0, timeout - (time.time() - t0)) * 1000))
        for f in fs: s.add(f)
        r = str(s.check())
        if r != 'unsat':
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'simplify', 'smt').solver(); s.set('timeout', int(max(1.0, timeout / 2) * 1000))
            for f in fs: s.add(f)
            r = str(s.check())
    except z3.Z3Exception:
        r = 'unknown'
    return ('unsat' if r == 'unsat' else 'unknown'), time.time() - t0

def eqpre(fs, deadline):
    cache = {}; keep = []
    def lin(t):
        i = t.get_id()
        if i in cache: return cache[i]
        if not z3.is_app(t) or t.num_args() == 0: r = t
        else:
            k = t.decl().kind()
            ch = [lin(c) for c in t.children()]
            if k == z3.Z3_OP_MUL and sum(1 for c in ch if not z3.is_rational_value(c)) > 1 or k == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1]) or k == z3.Z3_OP_POWER:
                r = z3.Real('nl!%d' % i)
            else: r = t.decl()(*ch)
        cache[i] = r; keep.append(t); keep.append(r)
        return r
    L = z3.Solver(); L.set('timeout', 3000)
    for f in fs: L.add(lin(f))
    if L.check() == z3.unsat: return [z3.BoolVal(False)]
    args = {}; conds = {}
    seen = set(); st = list(fs)
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 1 and x.arg(0).sort() == z3.BitVecSort(64): args[x.arg(0).get_id()] = x.arg(0)
            if x.decl().kind() == z3.Z3_OP_ITE: conds[x.arg(0).get_id()] = x.arg(0)
            st.extend(x.children())
    subs = []
    av = [a for a in args.values() if not z3.is_bv_value(a)]
    vals = [a for a in args.values() if z3.is_bv_value(a)]
    reps = list(vals)
    for a in sorted(av, key=lambda t: len(t.sexpr())):
        if time.time() > deadline: break
        for b in reps:
            L.push(); L.add(lin(a) != lin(b)); r = L.check(); L.pop()
            if r == z3.unsat: subs.append((a, b)); break
        else: reps.append(a)
    for c in conds.values():
        if time.time() > deadline: break
        if z3.is_true(c) or z3.is_false(c): continue
        L.push(); L.add(z3.Not(lin(c))); r = L.check(); L.pop()
        if r == z3.unsat: subs.append((c, z3.BoolVal(True))); continue
        L.push(); L.add(lin(c)); r = L.check(); L.pop()
        if r == z3.unsat: subs.append((c, z3.BoolVal(False)))
    if not subs: return None
    # the equalities themselves are consequences of fs, so adding them back keeps equivalence
    out = [z3.simplify(z3.substitute(f, *subs)) for f in fs]
    return out + [z3.simplify(a == b) for a, b in subs]

def run_abs(smt, timeout):
    """subterms that only occur at depth D or below are replaced by unconstrained constants (one per term): sound for unsat"""
    t0 = time.time()
    try:
        fs = list(z3.parse_smt2_string(smt))
        lev = {}; front = list(fs); d = 0; keep = []
        while front and d <= 60:
            nxt = []
            for x in front:
                i = x.get_id()
                if i in lev: continue
                lev[i] = d; keep.append(x)
                if z3.is_app(x): nxt.extend(c for c in x.children() if c.get_id() not in lev)
            front = nxt; d += 1
        if d < 14: return 'unknown', time.time() - t0
        for D in (12, 24, 48):
            if D >= d: break
            cache = {}
            def rw(t):
                i = t.get_id()
                if i in cache: return cache[i]
                if not z3.is_app(t) or t.num_args() == 0: r = t
                elif lev.get(i, 99) >= D: r = z3.Const('abs!%d' % i, t.sort())
                else: r = t.decl()(*[rw(c) for c in t.children()])
                cache[i] = r; keep.append(r)
                return r
            s = z3.Solver(); s.set('timeout', int(max(1.0, timeout / 3) * 1000))
            for f in fs: s.add(rw(f))
            if s.check() == z3.unsat: return 'unsat abs', time.time() - t0
    except (z3.Z3Exception, RecursionError): pass
    return 'unknown', time.time() - t0

def default_plan(mode): return ['z3', 'eq', 'ring', 'cvc5', 'z3long'] if mode == 'real' else ['z3', 'cvc5', 'z3long']
def discharge(job):
    """worker: (idx, smt2, mode, budget) -> (idx, result, backend, seconds)"""
    idx, smt, mode, budget, opts = job
    tot = 0.0
    plan = opts.get('plan') or default_plan(mode)
    for st in plan:
        if st not in STAGES: continue
        r, t = stage(st, smt, mode, budget, opts)
        tot += t
        r, _, be = r.partition(' ')
        if r in ('sat', 'unsat'): return idx, r, be or st, tot
    return idx, 'unknown', ','.join(plan), tot
def limit(job):
    """hard limit of a job; solvers do not always keep the timeout they are given"""
    idx, smt, mode, budget, opts = job
    return 6.0 + sum(1.5 * (min(budget, opts.get('t1') or (8 if mode == 'real' else 20)) if st == 'z3' else budget) for st in opts.get('plan') or default_plan(mode))
STAGES = ('z3', 'abs', 'eq', 'z3long', 'qfbv', 'qffp', 'nra', 'cvc5', 'cvc5int', 'cvc5iand', 'cvc5bl', 'z3bin', 'z3s1', 'z3s2', 'ring')
def stage(st, smt, mode, budget, opts):
    if mode == 'real' and st == 'z3':
        import ring
        t0 = time.time()
        try:
            if ring.prove_unsat(list(z3.parse_smt2_string(smt)), 0.5 * min(budget, opts.get('t1') or 8)): return 'unsat ring', time.time() - t0
        except z3.Z3Exception: pass
    if st == 'ring':
        import ring
        t0 = time.time()
        try: return ('unsat ring' if ring.prove_unsat(list(z3.parse_smt2_string(smt)), budget) else 'unknown'), time.time() - t0
        except z3.Z3Exception: return 'unknown', 0.0
    if st == 'z3': return run_z3(smt, min(budget, opts.get('t1') or (8 if mode == 'real' else 20)))
    if st == 'abs': return run_abs(smt, min(budget, 24))
    if st == 'eq': return run_eq(smt, budget)
    if st == 'z3long': return run_z3(smt, budget)
    if st in ('z3s1', 'z3s2'): return run_z3(smt, budget, lambda c: seeded(c, 7 if st == 'z3s1' else 23))
    if st == 'qfbv': return run_z3(smt, budget, lambda c: z3.Then('simplify', 'solve-eqs', 'bit-blast', 'sat', ctx=c).solver())
    if st == 'qffp': return run_z3(smt, budget, lambda c: z3.Then('simplify', 'fpa2bv', 'simplify', 'solve-eqs', 'bit-blast', 'sat', ctx=c).solver())
    if st == 'nra': return run_z3(smt, budget, lambda c: z3.Then('simplify', 'purify-arith', 'propagate-values', 'solve-eqs', 'qfnra-nlsat', ctx=c).solver())
    if st.startswith('cvc5'):
        ex = {'cvc5int': ['--solve-bv-as-int=sum'], 'cvc5iand': ['--solve-bv-as-int=iand'], 'cvc5bl': ['--bitblast=eager']}.get(st, [])
        return run_bin(['cvc5', '--lang=smt2', '--tlimit=%d' % int(budget * 1000)] + ex, smt, budget)
    return run_bin(['z3', '-T:%d' % int(budget)], smt, budget)
def seeded(ctx, n):
    s = z3.Solver(ctx=ctx); s.set('random_seed', n); return s

# ---------------------------------------------------------------- multiplication lemmas
def _sext(t, w):
    k = w - t.size()
    return z3.SignExt(k, t) if k > 0 else (t if k == 0 else z3.Extract(w - 1, 0, t))
def _zext(t, w):
    k = w - t.size()
    return z3.ZeroExt(k, t) if k > 0 else (t if k == 0 else z3.Extract(w - 1, 0, t))
def _narrow1(x):
    d = x.decl().kind()
    if d == z3.Z3_OP_SIGN_EXT: return x.arg(0), True
    if d == z3.Z3_OP_ZERO_EXT: return x.arg(0), False
    if d == z3.Z3_OP_BASHR and isinstance(x.arg(1), z3.BitVecNumRef) and 0 < x.arg(1).as_long() < x.size():
        return z3.simplify(z3.Extract(x.size() - 1, x.arg(1).as_long(), x.arg(0))), True
    if d == z3.Z3_OP_CONCAT:
        ch = x.children()
        if isinstance(ch[0], z3.BitVecNumRef) and ch[0].as_long() == 0:
            return (ch[1] if len(ch) == 2 else z3.Concat(*ch[1:])), False
        last = ch[-1]
        top = z3.simplify(z3.Extract(last.size() - 1, last.size() - 1, last))
        if all(c.eq(top) for c in ch[:-1]): return last, True
    return None
def _narrow(x):
    """x as an extension of a narrower term: (term, signed?)"""
    cur, s = x, None
    while True:
        r = _narrow1(cur)
        if r is None: return cur, s
        if s is None or s is True: cur, s = r
        elif s is False and r[1] is False: cur = r[0]
        else: return cur, s
def mulabs(fs):
    """replace symbolic products by exact wide products, uninterpreted except for true facts about multiplication
    (range, sign, zero, and the schoolbook decomposition into 16-bit halves)"""
    cache = {}; keep = []; axs = []; done = {}
    def P(u, su, v, sv):
        if u.get_id() > v.get_id(): u, su, v, sv = v, sv, u, su
        nu, nv = u.size(), v.size(); n = nu + nv
        f = z3.Function('P_%d_%d' % (nu, nv), u.sort(), v.sort(), z3.BitVecSort(n))
        p = f(u, v)    # the unsigned product; signed products differ by multiples of the operands
        if su: p = p - z3.If(u < 0, z3.ZeroExt(nu, v) << nu, z3.BitVecVal(0, n))
        if sv: p = p - z3.If(v < 0, z3.ZeroExt(nv, u) << nv, z3.BitVecVal(0, n))
        if su or sv:
            if not su: u, su, v, sv = v, sv, u, su
            nu, nv = u.size(), v.size()
        if p.get_id() in done: return p
        done[p.get_id()] = p; keep.append(p)
        B = lambda x: z3.BitVecVal(x, n)
        z = z3.Or(u == 0, v == 0)
        axs.append(z == (p == 0))
        if not su:
            axs.append(z3.ULE(p, B(((1 << nu) - 1) * ((1 << nv) - 1))))
        else:
            if sv: lo = -max((1 << (nu - 1)) * ((1 << (nv - 1)) - 1), (1 << (nv - 1)) * ((1 << (nu - 1)) - 1)); hi = 1 << (nu + nv - 2)
            else: lo = -(1 << (nu - 1)) * ((1 << nv) - 1); hi = ((1 << (nu - 1)) - 1) * ((1 << nv) - 1)
            axs.append(p >= B(lo)); axs.append(p <= B(hi))
            neg = (u < 0) if not sv else z3.Xor(u < 0, v < 0)
            axs.append(z3.Implies(z3.Not(z), neg == (p < 0)))
        if nu == 32 and nv == 32:
            S = lambda t: z3.simplify(t)
            uh, ul, vh, vl = S(z3.Extract(31, 16, u)), S(z3.Extract(15, 0, u)), S(z3.Extract(31, 16, v)), S(z3.Extract(15, 0, v))
            hh = P(uh, su, vh, sv); hl = P(uh, su, vl, False); lh = P(vh, sv, ul, False); ll = P(ul, False, vl, False)
            e = lambda t, s: _sext(t, 64) if s else _zext(t, 64)
            axs.append(p == (e(hh, su or sv) << 32) + ((e(hl, su) + e(lh, sv)) << 16) + _zext(ll, 64))
        return p
    def rw(t):
        i = t.get_id()
        if i in cache: return cache[i]
        if not z3.is_app(t) or t.num_args() == 0: r = t
        else:
            ch = [rw(c) for c in t.children()]
            if t.decl().kind() == z3.Z3_OP_BMUL:
                nums = [c for c in ch if isinstance(c, z3.BitVecNumRef)]; sy = [c for c in ch if not isinstance(c, z3.BitVecNumRef)]
                if len(sy) == 2:
                    w = t.size()
                    (u, su), (v, sv) = _narrow(sy[0]), _narrow(sy[1])
                    # an unextended operand of a wide product: treat as signed when the other is (or both full width)
                    if su is None: su = True
                    if sv is None: sv = True
                    p = P(u, su, v, sv)
                    r = _sext(p, w) if (su or sv) else _zext(p, w)
                    for c in nums: r = c * r
                else: r = t.decl()(*ch)
            else: r = t.decl()(*ch)
        cache[i] = r; keep.append(t); keep.append(r)
        return r
    out = [rw(z3.simplify(f)) for f in fs]
    return out + axs
