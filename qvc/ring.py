"""Deciding equalities of rational functions: conditions settled by a linear abstraction (or split on), then polynomial normal form.

prove_eq(hyps, a, b): True only if hyps imply a == b.  Divisions are treated as multiplication by an inverse whose divisor
must be shown different from zero under the hypotheses of the case at hand."""
import z3, time
from fractions import Fraction

class GiveUp(Exception): pass
LIMIT = 60000

def padd(p, q, c=1):
    r = dict(p)
    for m, k in q.items():
        v = r.get(m, 0) + c * k
        if v == 0: r.pop(m, None)
        else: r[m] = v
    return r
def mmul(a, b):
    d = dict(a)
    for v, e in b: d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))
def pmul(p, q):
    if len(p) * len(q) > LIMIT: raise GiveUp('size')
    r = {}
    for m, k in p.items():
        for n, l in q.items():
            x = mmul(m, n); v = r.get(x, 0) + k * l
            if v == 0: r.pop(x, None)
            else: r[x] = v
    return r
ONE = {(): Fraction(1)}

class Ring:
    def __init__(self, hyps, deadline):
        self.atoms = {}      # key -> index
        self.inv = {}        # index -> divisor polynomial
        self.terms = []      # index -> z3 term or None
        self.deadline = deadline
        self.hyps = list(hyps)
        self.keep = []
        self.bvreps = []
        self.ccs = []
        self.lz = {}
        self.L = z3.Solver(); self.L.set('timeout', 1500)
        self.N = None
        self.trail = []
        for h in self.hyps:
            try: self.L.add(self.lin(h))
            except GiveUp: pass
    def atom(self, key, term=None):
        i = self.atoms.get(key)
        if i is None:
            i = len(self.terms); self.atoms[key] = i; self.terms.append(term)
        return i
    def var(self, key, term): return {((self.atom(key, term), 1),): Fraction(1)}
    def canon(self, p):
        if not p: return ('z',)
        ms = sorted(p.items())
        return tuple((m, str(k)) for m, k in ms)
    def poly(self, t):
        i = t.get_id()
        k = ('poly', i)
        if k in self.lz: return self.lz[k]
        r = self._poly(t)
        self.lz[k] = r; self.keep.append(t)
        return r
    def _poly(self, t):
        if time.time() > self.deadline: raise GiveUp('time')
        if z3.is_rational_value(t):
            v = Fraction(t.numerator_as_long(), t.denominator_as_long())
            return {(): v} if v else {}
        if not z3.is_app(t): raise GiveUp('quantifier')
        k = t.decl().kind(); ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in ch: r = padd(r, self.poly(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.poly(ch[0])
            for c in ch[1:]: r = padd(r, self.poly(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS: return padd({}, self.poly(ch[0]), -1)
        if k == z3.Z3_OP_MUL:
            r = ONE
            for c in ch: r = pmul(r, self.poly(c))
            return r
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
            e = Fraction(ch[1].numerator_as_long(), ch[1].denominator_as_long())
            if e.denominator == 1 and 0 <= e <= 12:
                r = ONE
                for _ in range(int(e)): r = pmul(r, self.poly(ch[0]))
                return r
            raise GiveUp('power')
        if k == z3.Z3_OP_DIV:
            n, d = self.poly(ch[0]), self.poly(ch[1])
            if len(d) == 1 and () in d: return {m: c / d[()] for m, c in n.items()}
            if not d: raise GiveUp('division by zero')
            lead = d[max(d)]
            dm = {m: c / lead for m, c in d.items()}
            i = self.atom(('inv', self.canon(dm)))
            self.inv[i] = dm
            return pmul(n, {((i, 1),): 1 / lead})
        if k == z3.Z3_OP_TO_REAL and z3.is_int_value(ch[0]): return {(): Fraction(ch[0].as_long())} if ch[0].as_long() else {}
        if k == z3.Z3_OP_ITE:
            if z3.is_true(ch[0]) or z3.is_false(ch[0]): return self.poly(ch[1] if z3.is_true(ch[0]) else ch[2])
            p, q = self.poly(ch[1]), self.poly(ch[2])
            if p == q: return p
            j, neg = self.cclass(ch[0])
            if neg: p, q = q, p
            return self.var(('ite', j, self.canon(p), self.canon(q)), t)
        if not ch: return self.var(('v', t.decl().name()), t)
        return self.var(('app', t.decl().name(), k) + tuple(self.akey(c) for c in ch), t)
    def akey(self, c):
        s = c.sort()
        if s == z3.RealSort(): return self.canon(self.poly(c))
        if z3.is_bv_value(c): 
            self.rep(c); return ('bv', c.as_long(), c.size())
        if isinstance(c, z3.BitVecRef): return ('bvt', self.rep(c))
        return ('t', c.sexpr())
    def rep(self, c):
        """index of a bit vector known equal under the hypotheses"""
        for j, (r, ok) in enumerate(self.bvreps):
            if r.eq(c): return j
        for j, (r, ok) in enumerate(self.bvreps):
            if r.sort() != c.sort(): continue
            if self.implied(self.lin(r == c)): return j
        self.bvreps.append((c, True)); return len(self.bvreps) - 1
    def cclass(self, c):
        """class of conditions equivalent (or opposite) under the hypotheses"""
        k = ('cc', c.get_id())
        if k in self.lz: return self.lz[k]
        self.keep.append(c)
        l = self.lin(c); r = None
        for j, q in enumerate(self.ccs):
            if q.eq(l): r = (j, False); break
        if r is None:
            for j, q in enumerate(self.ccs):
                if self.implied(q == l): r = (j, False); break
                if self.implied(q != l): r = (j, True); break
        if r is None: self.ccs.append(l); r = (len(self.ccs) - 1, False)
        self.lz[k] = r
        return r
    # -- linear abstraction
    def lin(self, t):
        i = ('lin', t.get_id())
        if i in self.lz: return self.lz[i]
        if time.time() > self.deadline: raise GiveUp('time')
        if t.sort() == z3.RealSort():
            r = self.linp(self.poly(t))
        elif not z3.is_app(t): raise GiveUp('quantifier')
        elif t.num_args() == 0: r = t
        else: r = t.decl()(*[self.lin(c) for c in t.children()])
        self.lz[i] = r; self.keep.append(t); self.keep.append(r)
        return r
    def linp(self, p):
        parts = []
        for m, c in p.items():
            q = z3.RealVal(str(c))
            if m == (): parts.append(q); continue
            if len(m) == 1 and m[0][1] == 1:
                x = self.terms[m[0][0]]
                v = x if x is not None and z3.is_const(x) else z3.Real('at!%d' % m[0][0])
                if x is not None and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE: v = self.linite(m[0][0], x)
            else: v = z3.Real('mo!' + '_'.join('%d.%d' % a for a in m))
            parts.append(q * v)
        if not parts: return z3.RealVal(0)
        return z3.Sum(parts) if len(parts) > 1 else parts[0]
    def linite(self, i, x):
        k = ('li', i)
        if k not in self.lz:
            v = z3.Real('at!%d' % i); self.lz[k] = v
            try:
                self.L.add(v == z3.If(self.lin(x.arg(0)), self.lin(x.arg(1)), self.lin(x.arg(2))))
            except GiveUp: pass
        return self.lz[k]
    def implied(self, c):
        if time.time() > self.deadline: raise GiveUp('time')
        self.L.push(); self.L.add(z3.Not(c)); r = self.L.check(); self.L.pop()
        return r == z3.unsat

def conds_of(t, out, seen):
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE: out.append(x.arg(0))
            st.extend(x.children())

def has_ite(t):
    o = []; conds_of(t, o, set()); return bool(o)

def prove_eq(hyps, a, b, seconds=10.0, depth=7):
    return _prove(list(hyps), a, b, time.time() + seconds, depth)

def _prove(hyps, a, b, deadline, depth):
    try:
        if time.time() > deadline: return False
        R = Ring(hyps, deadline)
        r = R.L.check()
        if r == z3.unsat: return True
        # settle conditions, innermost first
        for _ in range(60):
            out = []; seen = set(); conds_of(a, out, seen); conds_of(b, out, seen)
            out = [c for c in out if not has_ite(c)]
            subs = []; open_ = []
            ids = set()
            for c in out:
                if c.get_id() in ids or z3.is_true(c) or z3.is_false(c): continue
                ids.add(c.get_id())
                l = R.lin(c)
                if R.implied(l): subs.append((c, z3.BoolVal(True)))
                elif R.implied(z3.Not(l)): subs.append((c, z3.BoolVal(False)))
                else: open_.append(c)
            if subs:
                a = z3.simplify(z3.substitute(a, *subs)); b = z3.simplify(z3.substitute(b, *subs)); continue
            break
        p = padd(R.poly(a), R.poly(b), -1)
        if not p: return ok_divisors(R, a, b, deadline)
        if open_:
            if depth <= 0: return False
            c = min(open_, key=lambda t: len(t.sexpr()))
            for v in (True, False):
                s = [(c, z3.BoolVal(v))]
                h2 = [z3.simplify(z3.substitute(h, *s)) for h in hyps] + [c if v else z3.Not(c)]
                if not _prove(h2, z3.simplify(z3.substitute(a, *s)), z3.simplify(z3.substitute(b, *s)), deadline, depth - 1): return False
            return True
        # eliminate inverses, latest first
        for i in sorted(R.inv, reverse=True):
            k = max((dict(m).get(i, 0) for m in p), default=0)
            if k == 0: continue
            pw = [ONE]
            for _ in range(k): pw.append(pmul(pw[-1], R.inv[i]))
            q = {}
            for m, c in p.items():
                e = dict(m).get(i, 0)
                m2 = tuple(x for x in m if x[0] != i)
                q = padd(q, pmul({m2: c}, pw[k - e]))
            p = q
        if p: return False
        return ok_divisors(R, a, b, deadline)
    except GiveUp:
        return False
    except z3.Z3Exception:
        return False

def ok_divisors(R, a, b, deadline):
    """every divisor in a and b differs from zero"""
    seen = set(); st = [a, b]; ds = []
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1)): ds.append(x.arg(1))
            st.extend(x.children())
    done = set()
    for d in ds:
        k = R.canon(R.poly(d))
        if k in done: continue
        done.add(k)
        if R.implied(R.lin(d) != 0): continue
        s = z3.Solver(); s.set('timeout', int(max(0.2, min(3.0, deadline - time.time())) * 1000))
        for h in R.hyps: s.add(h)
        s.add(d == 0)
        if s.check() != z3.unsat: return False
    return True

def prove_unsat(fs, seconds):
    """fs unsatisfiable because one of them is the negation of a provable equality"""
    end = time.time() + seconds
    fl = []
    def flat(f):
        if z3.is_and(f):
            for c in f.children(): flat(c)
        else: fl.append(f)
    for f in fs: flat(f)
    for i in range(len(fl) - 1, -1, -1):
        f = fl[i]
        e = None
        if z3.is_not(f) and z3.is_eq(f.arg(0)): e = f.arg(0)
        elif z3.is_distinct(f) and f.num_args() == 2: e = f
        if e is not None and e.arg(0).sort() == z3.RealSort():
            if prove_eq(fl[:i] + fl[i + 1:], e.arg(0), e.arg(1), min(seconds, max(0.1, end - time.time()))): return True
            if time.time() > end: return False
    return False
