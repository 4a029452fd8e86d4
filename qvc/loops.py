"""Unbounded loops: cut at the header; ghost iteration counter `it`; inferred + supplied inductive invariants."""
import z3
from vals import *
from ir import *
import execu as X
from execu import Cells, AB, AC, AS, AR, AI, Edge

def sub(t, it, val):
    if not is_sym(t): return t
    return z3.substitute(t, (it, bv(val, 64)))

class LV:   # loop variable
    def __init__(s, key, ty, init): s.key = key; s.ty = ty; s.init = init; s.step = None; s.cur = None; s.alias = None

def simp_mem(E, pc0, mem0):
    """rewrite the cells a loop starts from with the branch conditions its path condition decides (an equivalent state)"""
    conds = {}; seen = set(); st = []
    def raw(v): return v if isinstance(v, z3.ExprRef) else None
    for c in mem0.values():
        if isinstance(c, Cells):
            for e in c.d.values():
                if raw(e[2]) is not None: st.append(e[2])
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE: conds[x.arg(0).get_id()] = x.arg(0)
            st.extend(x.children())
    if not conds or len(conds) > 60: return mem0
    import solve
    subs = []
    for c in conds.values():
        if z3.is_true(c) or z3.is_false(c): continue
        if solve.prove_inproc(E, list(pc0), c, 300): subs.append((c, z3.BoolVal(True)))
        elif solve.prove_inproc(E, list(pc0), z3.Not(c), 300): subs.append((c, z3.BoolVal(False)))
    if not subs: return mem0
    out = {}
    for rid, c in mem0.items():
        if isinstance(c, Cells):
            d = {}
            for o, e in c.d.items():
                v = raw(e[2])
                d[o] = e if v is None else tuple(e[:2]) + (X.norm_r(z3.simplify(z3.substitute(v, *subs))) if isinstance(v, z3.ArithRef) else norm(z3.simplify(z3.substitute(v, *subs))),) + tuple(e[3:])
            out[rid] = Cells(d)
        else: out[rid] = c
    return out

def cut_loop(E, f, header, body, pc0, mem0, phi0, pt, env, rets):
    dem = E.dem.get(f.name, f.name)
    it = z3.BitVec(E.fresh('it'), 64)
    tag = E.fresh('L')
    mem0 = simp_mem(E, pc0, dict(mem0)) if E.mode == 'real' else dict(mem0)
    cells = {}      # (rid, off) -> LV
    arrays = set()
    phis = {n: LV(('phi', n), t, phi0[n]) for n, t in pt.items()}
    env0 = dict(env)

    def fresh_of(lv, label):
        t = lv.ty
        if t.k == 'ptr':
            if len(lv.init.alts) == 1:
                g, rid, off = lv.init.alts[0]
                r = E.regions[rid]
                es = r.es if r.kind == 'array' else 1
                a = z3.BitVec(E.fresh(label), 64)
                return Ptr([(True, rid, off.add(Lin(0, {a.get_id(): (a, es)})))])
            raise Unsupported('loop-carried pointer over several regions')
        return E.freshval(t, label)
    def affine_of(lv, itv):
        t = lv.ty
        if t.k == 'int': return simpi(iop('add', t.n, lv.init, iop('mul', t.n, lv.step & mask(t.n), trunc(itv, 64, t.n) if t.n < 64 else itv)))
        if t.k == 'ptr':
            g, rid, off = lv.init.alts[0]
            return Ptr([(True, rid, off.add(Lin.of(itv).scale(lv.step)))])
        raise Unsupported('affine')
    def header_state(itv, useaff, harr):
        ph = {}
        if useaff:
            for lv in list(phis.values()) + list(cells.values()):
                if lv.alias is None and lv.cur is None and lv.step is None: lv.cur = fresh_of(lv, 'v')
            for lv in list(phis.values()) + list(cells.values()):
                if lv.alias is not None: lv.cur = lv.alias.cur
        for n, lv in phis.items():
            lv.cur = affine_of(lv, itv) if (useaff and lv.step is not None) else (lv.cur if useaff and lv.cur is not None and lv.step is None else fresh_of(lv, 'phi'))
            ph[n] = lv.cur
        mem = dict(mem0)
        for (rid, o), lv in cells.items():
            lv.cur = affine_of(lv, itv) if (useaff and lv.step is not None) else (lv.cur if useaff and lv.cur is not None and lv.step is None else fresh_of(lv, 'cell'))
            d = dict(mem[rid].d)
            r = E.regions[rid]
            kind = E.tkind(lv.ty)
            E.cell_put(r, d, o, size_of(lv.ty), kind, lv.cur)
            mem[rid] = Cells(d)
        for rid in arrays: mem[rid] = harr[rid]
        return ph, mem
    def mkharr():
        h = {}
        for rid in arrays:
            r = E.regions[rid]
            h[rid] = AB(E.fresh('H_%s' % r.name), E.fsort(r.es * 8) if r.ety.k in FW else z3.BitVecSort(r.es * 8))
        return h
    def run(ph, mem, pc, dry=True, rr=None):
        e = dict(env0); e.update(ph)
        if dry: E.dry += 1
        nstack = len(E.stack)
        try:
            back, ex = E.region(f, body, header, [Edge(tuple(pc), dict(mem), None, ph)], e, rr if rr is not None else [], header)
        finally:
            if dry: E.dry -= 1
            del E.stack[nstack:]
        return E.merge_edges(back, pt), ex, e

    # --- phase A: modified set
    for _ in range(12):
        harr = mkharr()
        ph, mem = header_state(it, False, harr)
        bk, ex, _e = run(ph, mem, pc0)
        if bk is None:
            break
        grew = False
        for rid, c in bk[1].items():
            if rid not in mem:
                if rid in mem0 or E.regions[rid].name not in E.greg: continue
            h = mem.get(rid)
            if h is None: continue
            if c is h: continue
            if isinstance(c, Cells):
                for o, e in c.d.items():
                    he = h.d.get(o)
                    if he is e: continue
                    if he is not None and he[0] == e[0] and he[1] == e[1] and same_val(he[2], e[2]): continue
                    if (rid, o) not in cells:
                        ty = E.kty(e[1], e[0])
                        init = E.cell_get(E.regions[rid], mem0[rid].d, o, ty, e[0]) if rid in mem0 else None
                        cells[(rid, o)] = LV(('cell', rid, o), ty, init); grew = True
            else:
                if rid not in arrays: arrays.add(rid); grew = True
        if not grew: break
    else:
        raise Unsupported('loop modified-set does not stabilise in ' + dem)
    if bk is None:
        # the loop body never returns to the header
        bk2, ex, e2 = run({n: phi0[n] for n in pt}, mem0, pc0, dry=False, rr=rets)
        env.update(e2)
        return ex

    # --- phase B: affine variables
    allv = list(phis.items()) + list(cells.items())
    for k, lv in allv:
        nv = bk[2][k] if k in phis else E.cell_get(E.regions[k[0]], bk[1][k[0]].d, k[1], lv.ty, size_of(lv.ty))
        lv.step = None
        if lv.ty.k == 'int' and lv.ty.n > 1:
            d = iop('sub', lv.ty.n, nv, lv.cur)
            d = simpi(d)
            if not is_sym(d): lv.step = sgn(d, lv.ty.n)
            elif prove(E, list(bk[0]), d == 0): lv.step = 0
        elif lv.ty.k == 'ptr' and len(nv.alts) > 1:
            alts = [a for a in nv.alts if a[0] is True or not prove(E, list(bk[0]), z3.Not(zb(a[0])))]
            if len(alts) == 1 and len(lv.cur.alts) == 1 and alts[0][1] == lv.cur.alts[0][1]:
                d = alts[0][2].sub(lv.cur.alts[0][2])
                if d.const(): lv.step = sgn(d.c, 64)
        elif lv.ty.k == 'ptr' and len(nv.alts) == 1 and len(lv.cur.alts) == 1 and nv.alts[0][1] == lv.cur.alts[0][1]:
            d = nv.alts[0][2].sub(lv.cur.alts[0][2])
            if d.const(): lv.step = sgn(d.c, 64)
        lv.cur = None
    # variables that keep their value, and variables that start equal and are always updated alike (one shared symbol)
    def nextval(lv):
        k = lv.key_
        return bk[2][k] if k in phis else E.cell_get(E.regions[k[0]], bk[1][k[0]].d, k[1], lv.ty, size_of(lv.ty))
    def eqv(hyps, x, y, ms=2000):
        if same_val(x, y): return True
        if E.mode == 'real' and x is not None and y is not None:
            try: g = E.fraw(x, 32) == E.fraw(y, 32)
            except Exception: return False
            import solve
            return solve.prove_inproc(E, list(hyps), z3.simplify(g), ms)
        return False
    for k, lv in allv: lv.key_ = k
    fl = [lv for k, lv in allv if lv.step is None and (lv.ty.k in FW or E.mode != 'real' and lv.ty.k == 'int') and lv.init is not None]
    if E.mode == 'real' and len(fl) <= 12:   # equal start values: use the simplest term for all of them
        def tsize(v): return len(v.sexpr()) if is_sym(v) else 1
        reps = []
        for lv in sorted(fl, key=lambda l: tsize(l.init)):
            for r in reps:
                if eqv(pc0, r, lv.init, 1500): lv.init = r; break
            else: reps.append(lv.init)
    consts = list(fl) if E.mode == 'real' else []
    while consts:
        for k, lv in allv: lv.alias = None; lv.cur = None
        for lv in consts: lv.cur = lv.init
        ph, mem = header_state(it, True, mkharr())
        bk, ex, _e = run(ph, mem, pc0)
        if bk is None: consts = []; break
        keep = [lv for lv in consts if same_val(nextval(lv), lv.init)]
        maybe = [lv for lv in consts if lv not in keep]
        if len(keep) and maybe and len(maybe) <= 4: keep = [lv for lv in consts if lv in keep or eqv(bk[0], nextval(lv), lv.init)]
        if len(keep) == len(consts): break
        consts = keep
    fl = [lv for lv in fl if lv not in consts]
    groups = []
    for lv in fl:
        for g in groups:
            if g[0].ty == lv.ty and eqv(pc0, g[0].init, lv.init, 500): g.append(lv); break
        else: groups.append([lv])
    groups = [g for g in groups if len(g) > 1]
    def setup_state():
        for k, lv in allv: lv.alias = None; lv.cur = None
        for lv in consts: lv.cur = lv.init
        for g in groups:
            for lv in g[1:]: lv.alias = g[0]
    while groups:
        setup_state()
        ph, mem = header_state(it, True, mkharr())
        bk, ex, _e = run(ph, mem, pc0)
        new = []
        for g in groups:
            sub_ = []
            for lv in g:
                nv = nextval(lv)
                for q in sub_:
                    if eqv(bk[0], q[1], nv): q[0].append(lv); break
                    elif E.opts.get('debug'): print('group split', q[0][0].key_, lv.key_)
                else: sub_.append(([lv], nv))
            new += [q[0] for q in sub_ if len(q[0]) > 1]
        if sum(len(g) for g in new) == sum(len(g) for g in groups) and len(new) == len(groups): break
        groups = new
    setup_state()
    # --- phase C: arrays closed form
    harr = mkharr()
    ph, mem = header_state(it, True, harr)
    bk, ex, _e = run(ph, mem, pc0)
    closed = {}
    for rid in arrays:
        r = E.regions[rid]
        c = bk[1].get(rid)
        st = as_single_store(E, r, c, harr[rid])
        if st is None: continue
        idx, val = st
        l = Lin.of(idx)
        iid = None
        cc = None
        for i, (t, co) in l.t.items():
            if t.eq(it): cc = sgn(co, 64)
        if cc not in (1, -1): continue
        rest = Lin(l.c, {i: x for i, x in l.t.items() if not x[0].eq(it)})
        if mentions(rest.val(), it): continue
        i0 = rest.val()
        if mentions_any(i0, [lv.cur for k, lv in allv if lv.step is None]): continue
        # value at iteration j, with reads of the header array replaced by the initial contents
        init_c = mem0[rid]
        hf = harr[rid].f
        val0 = z3.substitute_funs(val, (hf, E.aread(r, init_c, z3.Var(0, z3.BitVecSort(64))))) if uses_fun(val, hf) else val
        if mentions_any(val0, [lv.cur for k, lv in allv if lv.step is None]): continue
        def mk(itv, i0=i0, cc=cc, val0=val0, init_c=init_c):
            if cc == 1:
                lo = i0; hi = simpi(iop('add', 64, i0, itv))
                fn = lambda k: sub(val0, it, simpi(iop('sub', 64, k, i0)))
            else:
                hi = simpi(iop('add', 64, i0, 1)); lo = simpi(iop('sub', 64, iop('add', 64, i0, 1), itv))
                fn = lambda k: sub(val0, it, simpi(iop('sub', 64, i0, k)))
            return AR(init_c, lo, hi, fn)
        closed[rid] = mk
    for _att in range(3):
        h2 = {rid: (closed[rid](it) if rid in closed else harr[rid]) for rid in arrays}
        ph, mem = header_state(it, True, h2)
        bk, ex, _e = run(ph, mem, pc0)
        # --- phase D: candidate invariants
        cands = []   # (name, fn(state)->Bool)
        hdr = (ph, mem, it)
        nxt = (bk[2], bk[1], it + 1)
        ini = (phi0, mem0, z3.BitVecVal(0, 64))
        atoms = []
        qc = []
        seen = set()
        for es in list(ex.values()) + [[Edge(bk[0], None, None, None)]]:
            for e in es:
                for c in e.pc[len(pc0):]: collect_atoms(c, atoms, seen)
        nonaff = [lv.cur for k, lv in allv if lv.step is None and is_sym(lv.cur if not isinstance(lv.cur, FV) else lv.cur.bv)]
        for s_, t_ in atoms:
            for a, b in ((s_, t_), (t_, s_)):
                if mentions(a, it) and not mentions(b, it) and not mentions_any(b, nonaff) and not mentions_any(a, nonaff) and not has_harr(a, harr) and not has_harr(b, harr):
                    for nm, op in (('ule', z3.ULE), ('uge', z3.UGE), ('sle', lambda x, y: x <= y), ('sge', lambda x, y: x >= y)):
                        cands.append(('%s %s %s' % (a, nm, b), lambda S, a=a, b=b, op=op: op(sub(a, it, S[2]), b)))
                    if a.size() == 64:
                        a0 = sub(a, it, z3.BitVecVal(0, 64))
                        cands.append(('it <= %s - %s' % (b, a0), lambda S, a0=a0, b=b: z3.ULE(S[2], b - a0)))
                        cands.append(('it <= %s - %s' % (a0, b), lambda S, a0=a0, b=b: z3.ULE(S[2], a0 - b)))
                    elif a.size() < 64:
                        a0 = sub(a, it, z3.BitVecVal(0, 64)); k = 64 - a.size()
                        cands.append(('it <= zext(%s - %s)' % (b, a0), lambda S, a0=a0, b=b, k=k: z3.ULE(S[2], z3.ZeroExt(k, b - a0))))
                        cands.append(('it <= zext(%s - %s)' % (a0, b), lambda S, a0=a0, b=b, k=k: z3.ULE(S[2], z3.ZeroExt(k, a0 - b))))
        for key, lv in allv:
            if lv.step is not None and lv.ty.k == 'int' and 8 < lv.ty.n < 64 and lv.step != 0:
                k = 64 - lv.ty.n; st = lv.step; i0 = bv(lv.init, lv.ty.n)
                for nm, ext in (('signed', z3.SignExt), ('unsigned', z3.ZeroExt)):
                    cands.append(('no %s wrap of %s' % (nm, key), lambda S, ext=ext, k=k, st=st, i0=i0, lv=lv: z3.And(z3.ULE(S[2], z3.BitVecVal(1 << 33, 64)),
                        ext(k, i0) + z3.BitVecVal(st & mask(64), 64) * S[2] == ext(k, bv(affine_of(lv, S[2]), lv.ty.n)))))
        if E.opts.get('counters'):   # integers that move by at most one per iteration
            for key, lv in allv:
                if lv.step is None and lv.ty.k == 'int' and lv.ty.n >= 16 and lv.init is not None:
                    i0 = bv(lv.init, lv.ty.n); k = 64 - lv.ty.n
                    def val(S, key=key, lv=lv): return bv(S[0][key] if key in phis else E.cell_get(E.regions[key[0]], S[1][key[0]].d, key[1], lv.ty, size_of(lv.ty)), lv.ty.n)
                    ext = (lambda x, k=k: z3.ZeroExt(k, x) if k else x)
                    cands.append(('%s moved down at most it' % (key,), lambda S, val=val, i0=i0, ext=ext: z3.ULE(ext(i0 - val(S)), S[2])))
                    cands.append(('%s moved up at most it' % (key,), lambda S, val=val, i0=i0, ext=ext: z3.ULE(ext(val(S) - i0), S[2])))
                    cands.append(('%s never above its start' % (key,), lambda S, val=val, i0=i0: z3.ULE(val(S), i0)))
        for iv in E.invs:
            fn = E.m.funcs.get('@' + iv)
            if fn is None: continue
            nparm = len(fn.params)
            if iv.startswith('INVQ'):
                # for all k: iv(it, k)
                if nparm == 2:
                    qc.append((iv, lambda S, k, iv=iv: callinv(E, iv, [S[2], k], S[1])))
                elif nparm == 3:
                    want = fn.params[2][0]
                    for n, lv in phis.items():
                        if lv.ty.k == want.k and (want.k != 'int' or want.n == lv.ty.n):
                            qc.append(('%s(%s)' % (iv, n), lambda S, k, iv=iv, n=n: callinv(E, iv, [S[2], k, S[0][n]], S[1])))
                continue
            if nparm == 1:
                cands.append((iv, lambda S, iv=iv: callinv(E, iv, [S[2]], S[1])))
            elif nparm == 2:
                want = fn.params[1][0]
                for n, lv in phis.items():
                    if lv.ty.k == want.k and (want.k != 'int' or want.n == lv.ty.n) and lv.step is None:
                        cands.append(('%s(%s)' % (iv, n), lambda S, iv=iv, n=n: callinv(E, iv, [S[2], S[0][n]], S[1])))
                for key, lv in cells.items():
                    if lv.ty.k == want.k and (want.k != 'int' or want.n == lv.ty.n) and lv.step is None:
                        cands.append(('%s(cell%s)' % (iv, key), lambda S, iv=iv, key=key, lv=lv: callinv(E, iv, [S[2], E.cell_get(E.regions[key[0]], S[1][key[0]].d, key[1], lv.ty, size_of(lv.ty))], S[1])))
        for rid in closed:
            r = E.regions[rid]
            def ac(S, rid=rid, r=r):
                k = z3.BitVec('k!%d_%s' % (rid, tag), 64)
                inb = z3.ULT(k, bv(r.n, 64))
                return z3.Implies(inb, E.aread(r, S[1][rid], k) == E.aread(r, closed[rid](S[2]), k))
            cands.append(('array closed form of %s' % r.name, ac))
        uniq = {}
        for n, fn in cands: uniq.setdefault(n, fn)
        H = {}
        base = list(pc0) + [z3.ULT(it, z3.BitVecVal(1 << 62, 64))]
        for n, fn in uniq.items():
            try:
                i = zb(fn(ini)); h = zb(fn(hdr)); x = zb(fn(nxt))
            except Unsupported as u:
                if E.opts.get('debug'): print('cand', n, 'unsupported', u)
                continue
            if prove(E, list(pc0), i): H[n] = (h, x)
            elif E.opts.get('debug'): print('cand fails initially:', n[:150])
        Q = {}
        for n, fn in qc:
            k = z3.BitVec(E.fresh('kq'), 64)
            try:
                i = fn(ini, k); x = fn(nxt, k)
            except Unsupported as u:
                if E.opts.get('debug'): print('cand', n, 'unsupported', u)
                continue
            if prove(E, list(pc0), i): Q[n] = (fn, x, k)
            elif E.opts.get('debug'): print('cand fails initially:', n[:150])
        def qfacts(guard):
            out = []
            for n, (fn, x, k) in Q.items():
                def fact(k, fn=fn): return z3.Implies(guard, fn(hdr, k))
                for rid in arrays:
                    if rid not in closed: out.append((harr[rid].f, fact))
            return out
        nf0 = len(E.facts)
        changed = True
        while changed:
            changed = False
            hyps = base + [h for n, (h, x) in H.items()]
            bad = []
            del E.facts[nf0:]
            E.facts.extend(qfacts(z3.BoolVal(True)))
            for n, (h, x) in H.items():
                if not prove(E, hyps + list(bk[0][len(pc0):]), x): bad.append(n)
            for n, (fn, x, k) in Q.items():
                if not prove(E, hyps + [fn(hdr, k)] + list(bk[0][len(pc0):]), x): bad.append(n)
            for n in bad:
                if E.opts.get('debug'): print('cand not preserved:', n[:150])
                H.pop(n, None); Q.pop(n, None); changed = True
        del E.facts[nf0:]
        lost = [rid for rid in closed if 'array closed form of %s' % E.regions[rid].name not in H]
        if not lost: break
        for rid in lost: del closed[rid]
    # every earlier iteration took the continue path; usable when that path depends on the iteration number only
    def pure(c):
        if c is None or mentions_any(c, nonaff) or has_harr(c, harr): return False
        import solve
        new = set(x for x in solve.symbols(c, {}) if x not in known)
        return new <= {it.decl().name() + '/0'}
    known = set()
    import solve as _s
    for v in list(pc0): known |= _s.symbols(zb(v), {}) if is_sym(v) else set()
    for lv in [x for _, x in allv]:
        v = lv.init
        if isinstance(v, FV): v = v._bv if v._bv is not None else v._fp
        if isinstance(v, Ptr):
            for g, r, o in v.alts:
                for x, c in o.t.values(): known |= _s.symbols(x, {})
        elif is_sym(v): known |= _s.symbols(v, {})
    for a in E.inputs:
        if is_sym(a[2]): known |= _s.symbols(a[2], {})
        elif isinstance(a[2], tuple): known.add(a[2][0].f.name() + '/1')
    cont = [zb(x) for x in bk[0][len(pc0):]] if bk is not None else []
    prev = [z3.substitute(x, (it, it - 1)) for x in cont if pure(x) and mentions(x, it)]
    # --- phase E: real run
    invs = [h for n, (h, x) in H.items() if not n.startswith('array closed') and not z3.is_true(z3.simplify(h))]
    pcH = tuple(pc0) + (z3.ULT(it, z3.BitVecVal(1 << 62, 64)),) + tuple(invs) + ((z3.Or(it == 0, z3.And(*prev)),) if prev else ())
    E.facts.extend(qfacts(z3.And(*[zb(c) for c in pcH]) if pcH else z3.BoolVal(True)))
    ph, mem = header_state(it, True, h2)
    bk, ex, e2 = run(ph, mem, pcH, dry=False, rr=rets)
    env.update(e2)
    E.loops.append((dem, 'cut: %d inductive facts (%d affine variables, %d arrays in closed form)' % (len(H), sum(1 for k, lv in allv if lv.step is not None), len(closed)),
                    sorted(n[:120] for n in list(H) + list(Q))))
    E.loopobs = E.__dict__.get('loopobs', 0) + 2 * (len(H) + len(Q))
    # history facts: every earlier iteration took the continue path
    if bk is not None:
        cont = bk[0][len(pcH):]
        c = z3.And(*cont) if cont else None
        if c is not None and pure(c):
            apps = []
            collect_apps(c, apps, set())
            for fdecl, arg in apps:
                l = Lin.of(arg)
                co = None
                for i, (t, k) in l.t.items():
                    if t.eq(it): co = sgn(k, 64)
                if co not in (1, -1): continue
                rest = Lin(l.c, {i: x for i, x in l.t.items() if not x[0].eq(it)}).val()
                if mentions(rest, it): continue
                def fact(k, co=co, rest=rest, c=c):
                    j = iop('sub', 64, k, rest) if co == 1 else iop('sub', 64, rest, k)
                    j = bv(j, 64)
                    return z3.Implies(z3.ULT(j, it), z3.substitute(c, (it, j)))
                E.facts.append((fdecl, fact))
    return ex

def callinv(E, iv, args, mem):
    E.dry += 1
    try: r = E.call_function('@' + iv, args, (), dict(mem))
    finally: E.dry -= 1
    E.functions.pop('@' + iv, None)
    return zb(simpb(tob(r[2]['ret'])))

def prove(E, hyps, goal):
    if z3.is_true(goal): return True
    g = z3.simplify(goal)
    if z3.is_true(g): return True
    E.nqueries += 1
    import solve
    return solve.prove_inproc(E, hyps, g, E.opts.get('inv_timeout', 8000))

def same_val(a, b):
    if a is b: return True
    if is_sym(a) and is_sym(b): return a.eq(b)
    if isinstance(a, FV) and isinstance(b, FV):
        if a.bits is not None: return a.bits == b.bits
        if a._bv is not None and b._bv is not None: return a._bv.eq(b._bv)
        return False
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return len(a.alts) == len(b.alts) and all(x[0] is True and y[0] is True and x[1] == y[1] and x[2].same(y[2]) for x, y in zip(a.alts, b.alts))
    if is_sym(a) or is_sym(b): return False
    return a == b
def mentions(t, v):
    if not is_sym(t): return False
    seen = set(); st = [t]; i = v.get_id()
    while st:
        x = st.pop()
        if x.get_id() == i: return True
        if x.get_id() in seen: continue
        seen.add(x.get_id()); st.extend(x.children())
    return False
def mentions_any(t, vs):
    for v in vs:
        if isinstance(v, FV): v = v._bv if v._bv is not None else v._fp
        if isinstance(v, Ptr):
            for g, r, o in v.alts:
                for x, c in o.t.values():
                    if mentions(t, x): return True
            continue
        if is_sym(v) and mentions(t, v): return True
    return False
def uses_fun(t, fd):
    if not is_sym(t): return False
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().eq(fd): return True
        st.extend(x.children())
    return False
def has_harr(t, harr): return any(uses_fun(t, h.f) for h in harr.values())
def collect_apps(t, out, seen):
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 1 and x.arg(0).sort() == z3.BitVecSort(64):
            out.append((x.decl(), x.arg(0)))
        st.extend(x.children())
def collect_atoms(t, out, seen):
    st = [t]
    ks = (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT, z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT, z3.Z3_OP_EQ)
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() in ks and x.num_args() == 2 and isinstance(x.arg(0), z3.BitVecRef) and isinstance(x.arg(1), z3.BitVecRef):
            out.append((x.arg(0), x.arg(1)))
        if z3.is_bool(x): st.extend(x.children())
def as_single_store(E, r, c, H):
    """content c over header array H as one (possibly conditional) store: (idx, val) or None"""
    if isinstance(c, AS) and c.p is H: return c.i if is_sym(c.i) else z3.BitVecVal(c.i, 64), c.v
    if isinstance(c, AI):
        a = H if c.a is H else as_single_store(E, r, c.a, H)
        b = H if c.b is H else as_single_store(E, r, c.b, H)
        if a is None or b is None: return None
        if a is H and b is H: return None
        if a is H: return b[0], X.zIf(c.c, H.f(bv(b[0], 64)), b[1])
        if b is H: return a[0], X.zIf(c.c, a[1], H.f(bv(a[0], 64)))
        if E.idx_eq(a[0], b[0]) is True: return a[0], X.zIf(c.c, a[1], b[1])
    return None
