"""VC generator: merged symbolic execution of LLVM IR, producing proof obligations."""
import z3, subprocess, sys, math
from fractions import Fraction
from ir import *
from vals import *
sys.setrecursionlimit(100000)

# ------------------------------------------------------------------ memory contents
_nice = {}
def nice(fr, bits, w):
    """a float constant, as the simplest fraction that rounds to it (0.1f is 1/10 where arithmetic is real)"""
    if fr.denominator == 1 or fr.denominator <= 1024: return fr
    if w == 64:     # a float widened to double
        b = frac_to_bits(fr, 32)
        if bits_class(b, 32) == 'fin' and bits_to_frac(b, 32) == fr: return nice(fr, b, 32)
    k = (bits, w)
    if k not in _nice:
        r = fr
        for lim in (12, 100, 2000) + ((100000,) if w == 64 else ()):
            q = fr.limit_denominator(lim)
            if q != 0 and frac_to_bits(q, w) == bits: r = q; break
        _nice[k] = r
    return _nice[k]

class Cells:
    __slots__ = ('d',)
    def __init__(self, d=None): self.d = d if d is not None else {}

class AB:      # array base: uninterpreted
    __slots__ = ('f', 'name')
    def __init__(self, name, sort):
        self.name = name; self.f = z3.Function(name, z3.BitVecSort(64), sort)
class AC:      # constant array
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
class AS:      # store
    __slots__ = ('p', 'i', 'v')
    def __init__(self, p, i, v): self.p = p; self.i = i; self.v = v
class AR:      # range lo <= k < hi -> fn(k)
    __slots__ = ('p', 'lo', 'hi', 'fn')
    def __init__(self, p, lo, hi, fn): self.p = p; self.lo = lo; self.hi = hi; self.fn = fn
class AI:      # ite
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b

class Region:
    __slots__ = ('rid', 'name', 'kind', 'size', 'es', 'n', 'default', 'const', 'func', 'tag', 'ety')
    def __init__(self, rid, name, kind):
        self.rid = rid; self.name = name; self.kind = kind; self.size = None; self.es = None; self.n = None
        self.default = 'uninit'; self.const = False; self.func = None; self.tag = None; self.ety = None

class Edge:
    __slots__ = ('pc', 'mem', 'src', 'phi')
    def __init__(self, pc, mem, src, phi): self.pc = pc; self.mem = mem; self.src = src; self.phi = phi

class Ob:
    __slots__ = ('name', 'pc', 'cond', 'kind', 'fn', 'nax', 'txt', 'soft')
    def __init__(self, name, pc, cond, kind, fn, txt=''):
        self.name = name; self.pc = pc; self.cond = cond; self.kind = kind; self.fn = fn; self.txt = txt; self.soft = False

class Infeasible(Exception): pass

NONE = object()

class Exec:
    def __init__(self, mod, demangled, mode='fp', unroll=0, stubs=None, specs=None, invs=None, cut=None, opts=None):
        self.m = mod; self.mode = mode; self.unroll = unroll
        self.dem = demangled
        self.stubs = stubs or {}; self.specs = specs or {}; self.invs = invs or []
        self.cutpats = cut or []
        self.opts = opts or {}
        self.ax = []           # global axioms
        self.obs = []
        self.inputs = []       # (name, kind, term)
        self.covers = []
        self.regions = [None]
        self.greg = {}
        self.freg = {}
        self.cnt = {}
        self.fpb = {}
        self.dry = 0
        self.spec_depth = {}
        self.stack = []
        self.functions = {}    # executed real functions: name -> count
        self.trivial = 0
        self.assumed = []
        self.loops = []
        self.facts = []        # universally quantified facts: (python fn of k -> Bool)
        self.ufs = {}
        self.ptrint = {}
        self.rcache = {}; self.dcache = {}
        self.sizehints = []
        self.nqueries = 0
        self._newregion('null', 'null')
        self.regions.pop(0)
        self.regions[0].rid = 0
        self.loopinfo = {}
        self.contract_used = {}

    # ------------------------------------------------------------ misc
    def fresh(self, base):
        n = self.cnt.get(base, 0); self.cnt[base] = n + 1
        return '%s!%d' % (base, n)
    def real(self): return self.mode == 'real'
    def _newregion(self, name, kind):
        r = Region(len(self.regions), name, kind); self.regions.append(r); return r
    def fp_bits(self, fp, w):
        k = fp.get_id()
        if k not in self.fpb:
            b = z3.BitVec(self.fresh('fpb'), w)
            self.ax.append(z3.fpBVToFP(b, FSORT[w]) == fp)
            self.fpb[k] = (b, fp)
        return self.fpb[k][0]
    def uf(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        if k not in self.ufs: self.ufs[k] = z3.Function(name, *sorts)
        return self.ufs[k]
    def add_ob(self, name, pc, cond, kind, txt=''):
        if self.dry: return
        if cond is True: self.trivial += 1; return
        c = simpb(cond)
        if c is True: self.trivial += 1; return
        self.obs.append(Ob(name, tuple(pc), c, kind, self.stack[-1] if self.stack else '', txt))
    def fname(self):
        return self.dem.get(self.stack[-1], self.stack[-1]) if self.stack else ''
    def quick(self, fs, timeout=1500):
        """'sat'|'unsat'|'unknown' for the conjunction of fs under axioms"""
        self.nqueries += 1
        s = z3.Solver(); s.set('timeout', timeout)
        for a in self.ax: s.add(a)
        for f in fs:
            if f is True: continue
            if f is False: return 'unsat'
            s.add(f)
        return str(s.check())
    def discrete(self, t):
        """does t mention integers and truth values only?"""
        if not is_sym(t): return True
        k = t.get_id()
        c = self.dcache.get(k)
        if c is None:
            if z3.is_real(t) or z3.is_fp(t): r = False
            else: r = all(self.discrete(x) for x in t.children())
            c = self.dcache[k] = (r, t)
        return c[0]
    def infeasible(self, pc, timeout=1500):
        return self.quick(list(pc), timeout) == 'unsat'

    # ------------------------------------------------------------ floats
    def fconst(self, ty, v):
        w = FW[ty.k]
        if w == 80: return v if isinstance(v, Fraction) else (Fraction(v) if not (math.isnan(v) or math.isinf(v)) else v)
        if isinstance(v, Fraction): bits = frac_to_bits(v, w)
        else: bits = py_to_bits(v, w)
        return self.fbits(bits, w)
    def fbits(self, bits, w):
        if self.real():
            c = bits_class(bits, w)
            if c != 'fin': return z3.Real({'nan': 'NAN!', 'inf': 'INF!', '-inf': 'NINF!'}[c])
            return nice(bits_to_frac(bits, w), bits, w)
        return FV(w, bits=bits)
    def ffresh(self, name, w):
        if self.real(): return z3.Real(name)
        return FV(w, bv=z3.BitVec(name, w))
    def fsort(self, w): return z3.RealSort() if self.real() else z3.BitVecSort(w)
    def fraw(self, v, w):
        """float value -> z3 term of fsort"""
        if self.real(): return rz(v)
        return bv(v.bv, w)
    def funraw(self, t, w):
        if self.real():
            return norm_r(t)
        t = norm(t)
        if not is_sym(t): return FV(w, bits=t)
        return FV(w, bv=t)
    def fite(self, c, w, a, b):
        if isinstance(c, bool): return a if c else b
        if a is b: return a
        if self.real():
            if not is_sym(a) and not is_sym(b) and a == b: return a
            a = rz(a); b = rz(b)
            if a.eq(b): return a
            return z3.If(c, a, b)
        if w == 80: raise Unsupported('fp80 ite')
        if a.bits is not None and b.bits is not None and a.bits == b.bits: return a
        hasbv = lambda x: x.bits is not None or x._bv is not None
        if hasbv(a) and hasbv(b):
            x = bv(a.bv, w); y = bv(b.bv, w)
            if x.eq(y): return a
            return FV(w, bv=z3.If(c, x, y), E=self)
        if a._fp is not None and b._fp is not None and a._fp.eq(b._fp): return a
        return FV(w, fp=z3.If(c, a.fp, b.fp), E=self)
    def farith(self, op, w, a, b):
        if w == 80:
            if op == 'fadd': return a + b
            if op == 'fsub': return a - b
            if op == 'fmul': return a * b
            if op == 'fdiv': return a / b
        if self.real():
            if not is_sym(a) and not is_sym(b):
                if op == 'fadd': return a + b
                if op == 'fsub': return a - b
                if op == 'fmul': return a * b
                if op == 'fdiv' and b != 0: return a / b
            if not is_sym(a):
                if op == 'fadd' and a == 0: return b
                if op == 'fmul' and a == 0: return Fraction(0)
                if op == 'fmul' and a == 1: return b
            if not is_sym(b):
                if op in ('fadd', 'fsub') and b == 0: return a
                if op == 'fmul' and b == 0: return Fraction(0)
                if op in ('fmul', 'fdiv') and b == 1: return a
            x = rz(a); y = rz(b)
            if op == 'fadd': return x + y
            if op == 'fsub': return x - y
            if op == 'fmul': return x * y
            if op == 'fdiv': return x / y
            raise Unsupported(op)
        if a.bits is not None and b.bits is not None:
            ca = bits_class(a.bits, w); cb = bits_class(b.bits, w)
            if ca == 'fin' and cb == 'fin' and op != 'frem':
                fa = bits_to_frac(a.bits, w); fb = bits_to_frac(b.bits, w)
                r = None
                if op == 'fadd': r = fa + fb
                elif op == 'fsub': r = fa - fb
                elif op == 'fmul': r = fa * fb
                elif op == 'fdiv' and fb != 0: r = fa / fb
                if r is not None and r != 0: return FV(w, bits=frac_to_bits(r, w))
            s = FSORT[w]
            t = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}.get(op)
            if t is None: raise Unsupported(op)
            t = z3.simplify(t(RNE, a.fp, b.fp))
            return self.fpval(t, w)
        if self.mode == 'uf':
            f = self.uf('uf_' + op, z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))
            x = bv(a.bv, w); y = bv(b.bv, w)
            if op in ('fadd', 'fmul') and x.get_id() > y.get_id(): x, y = y, x
            return FV(w, bv=f(x, y))
        t = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}.get(op)
        if t is None: raise Unsupported(op)
        return FV(w, fp=t(RNE, a.fp, b.fp), E=self)
    def fpval(self, t, w):
        """simplified FP term -> FV, concrete if numeral"""
        if z3.is_fp_value(t) or isinstance(t, z3.FPNumRef):
            if t.isNaN(): return FV(w, bits=0x7fc00000 if w == 32 else 0x7ff8 << 48)
            b = z3.simplify(z3.fpToIEEEBV(t))
            return FV(w, bits=b.as_long())
        return FV(w, fp=t, E=self)
    def fneg(self, w, a):
        if self.real() or w == 80:
            return -a
        if a.bits is not None: return FV(w, bits=a.bits ^ (1 << (w - 1)))
        if a._bv is not None: return FV(w, bv=a._bv ^ z3.BitVecVal(1 << (w - 1), w))
        return FV(w, fp=z3.fpNeg(a.fp), E=self)
    def fabs(self, w, a):
        if self.real():
            if not is_sym(a): return abs(a)
            return z3.If(a >= 0, a, -a)
        if a.bits is not None: return FV(w, bits=a.bits & mask(w - 1))
        if a._bv is not None: return FV(w, bv=a._bv & z3.BitVecVal(mask(w - 1), w))
        return FV(w, fp=z3.fpAbs(a.fp), E=self)
    def fcmp(self, pr, w, a, b):
        if pr == 'true': return True
        if pr == 'false': return False
        if self.real() or w == 80:
            if pr == 'ord': return True
            if pr == 'uno': return False
            p = pr[1:]
            if not is_sym(a) and not is_sym(b):
                return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p]
            a = rz(a); b = rz(b)
            if a.eq(b): return p in ('eq', 'le', 'ge')
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p]
        if a.bits is not None and b.bits is not None:
            x = bits_to_py(a.bits, w); y = bits_to_py(b.bits, w)
            un = math.isnan(x) or math.isnan(y)
            if pr == 'ord': return not un
            if pr == 'uno': return un
            p = pr[1:]
            r = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]
            if un: return pr[0] == 'u'
            return r
        x = a.fp; y = b.fp
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        if a.bits is not None and bits_class(a.bits, w) != 'nan': un = z3.fpIsNaN(y)
        if b.bits is not None and bits_class(b.bits, w) != 'nan': un = z3.fpIsNaN(x)
        if x.eq(y): un = z3.fpIsNaN(x)
        if pr == 'ord': return z3.Not(un)
        if pr == 'uno': return un
        if pr == 'oeq': return z3.fpEQ(x, y)
        if pr == 'une': return z3.Not(z3.fpEQ(x, y))
        if pr == 'olt': return z3.fpLT(x, y)
        if pr == 'ole': return z3.fpLEQ(x, y)
        if pr == 'ogt': return z3.fpGT(x, y)
        if pr == 'oge': return z3.fpGEQ(x, y)
        if pr == 'ult': return z3.Not(z3.fpGEQ(x, y))
        if pr == 'ule': return z3.Not(z3.fpGT(x, y))
        if pr == 'ugt': return z3.Not(z3.fpLEQ(x, y))
        if pr == 'uge': return z3.Not(z3.fpLT(x, y))
        if pr == 'one': return z3.And(z3.Not(un), z3.Not(z3.fpEQ(x, y)))
        if pr == 'ueq': return z3.Or(un, z3.fpEQ(x, y))
        raise Unsupported('fcmp ' + pr)
    def fcast(self, op, ty, fty, v):
        """float casts"""
        if op in ('fptrunc', 'fpext'):
            wt = FW[ty.k]; wf = FW[fty.k]
            if wf == 80:
                if wt == 80: return v
                if isinstance(v, float): return self.fbits(py_to_bits(v, wt), wt)
                if is_sym(v): return v
                return self.fbits(frac_to_bits(v, wt), wt)
            if wt == 80:
                if self.real(): return v
                if v.bits is not None: 
                    if bits_class(v.bits, wf) == 'fin': return bits_to_frac(v.bits, wf)
                    return bits_to_py(v.bits, wf)
                raise Unsupported('symbolic fp80')
            if self.real():
                if not is_sym(v) and wt < wf:
                    b_ = frac_to_bits(v, wt); return nice(bits_to_frac(b_, wt), b_, wt)
                return v
            if v.bits is not None:
                c = bits_class(v.bits, wf)
                if c == 'fin' and bits_to_frac(v.bits, wf) != 0: return FV(wt, bits=frac_to_bits(bits_to_frac(v.bits, wf), wt))
                return self.fpval(z3.simplify(z3.fpFPToFP(RNE, v.fp, FSORT[wt])), wt)
            if self.mode == 'uf' and op == 'fptrunc':
                return FV(wt, bv=self.uf('uf_fptrunc', z3.BitVecSort(wf), z3.BitVecSort(wt))(bv(v.bv, wf)))
            return FV(wt, fp=z3.fpFPToFP(RNE, v.fp, FSORT[wt]), E=self)
        if op in ('uitofp', 'sitofp'):
            n = fty.n; w = FW[ty.k]
            if n == 1: v = zext(v, 1, 8) if op == 'uitofp' else sext(v, 1, 8); n = 8
            if not is_sym(v):
                x = v if op == 'uitofp' else sgn(v, n)
                if w == 80: return Fraction(x)
                if x == 0: return self.fbits(0, w)
                return self.fbits(frac_to_bits(Fraction(x), w), w) if not self.real() else Fraction(x)
            if self.real():
                return z3.ToReal(z3.BV2Int(v, op == 'sitofp'))
            if w == 80: raise Unsupported('fp80')
            if self.mode == 'uf':
                return FV(w, bv=self.uf('uf_%s%d' % (op, n), z3.BitVecSort(n), z3.BitVecSort(w))(v))
            return FV(w, fp=(z3.fpUnsignedToFP if op == 'uitofp' else z3.fpSignedToFP)(RNE, v, FSORT[w]), E=self)
        if op in ('fptoui', 'fptosi'):
            n = ty.n; w = FW[fty.k]
            if self.real():
                if not is_sym(v):
                    q = int(v)
                    return q & mask(n)
                i = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
                return z3.Int2BV(i, n)
            if v.bits is not None:
                if bits_class(v.bits, w) != 'fin': return z3.BitVec(self.fresh('poison'), n)
                q = bits_to_frac(v.bits, w); q = int(q)
                return q & mask(n)
            return (z3.fpToUBV if op == 'fptoui' else z3.fpToSBV)(RTZ, v.fp, z3.BitVecSort(n))
        raise Unsupported(op)

    # ------------------------------------------------------------ generic ite / fresh / default
    def ite(self, c, ty, a, b):
        if isinstance(c, bool): return a if c else b
        if a is b: return a
        k = ty.k
        if k == 'int': return iIte(c, ty.n, a, b)
        if k in FW: return self.fite(c, FW[k], a, b)
        if k == 'ptr': return ptr_ite(c, a, b)
        if k in ('arr', 'vec'): return [self.ite(c, ty.e, x, y) for x, y in zip(a, b)]
        if k == 'struct': return [self.ite(c, t, x, y) for t, x, y in zip(ty.e, a, b)]
        raise Unsupported('ite %r' % ty)
    def freshval(self, ty, base):
        k = ty.k
        if k == 'int':
            if ty.n == 1: return z3.Bool(self.fresh(base))
            return z3.BitVec(self.fresh(base), ty.n)
        if k in ('float', 'double'): return self.ffresh(self.fresh(base), FW[k])
        if k == 'ptr': return Ptr([(True, 0, Lin.of(z3.BitVec(self.fresh(base), 64)))])
        if k in ('arr', 'vec'): return [self.freshval(ty.e, base) for _ in range(ty.n)]
        if k == 'struct': return [self.freshval(t, base) for t in ty.e]
        raise Unsupported('fresh %r' % ty)
    def zeroval(self, ty):
        k = ty.k
        if k == 'int': return False if ty.n == 1 else 0
        if k in ('float', 'double'): return self.fbits(0, FW[k])
        if k == 'x86_fp80': return Fraction(0)
        if k == 'ptr': return NULL
        if k in ('arr', 'vec'): return [self.zeroval(ty.e) for _ in range(ty.n)]
        if k == 'struct': return [self.zeroval(t) for t in ty.e]
        raise Unsupported('zero %r' % ty)

    # ------------------------------------------------------------ globals / constants
    def global_ptr(self, name, mem):
        if name in self.m.aliases: 
            return self.const_val(self.m.aliases[name], mem)
        if name in self.m.funcs:
            if name not in self.freg:
                r = self._newregion(name, 'func'); r.func = name; self.freg[name] = r.rid
            return Ptr([(True, self.freg[name], Lin(0))])
        if name not in self.greg:
            g = self.m.globals[name]
            r = self._newregion(name, 'cells'); r.size = size_of(g.ty); r.const = g.const
            r.default = 'uninit' if g.init is None else 'zero'
            self.greg[name] = r.rid
        return Ptr([(True, self.greg[name], Lin(0))])
    def content(self, rid, mem):
        c = mem.get(rid)
        if c is not None: return c
        r = self.regions[rid]
        if r.kind == 'cells':
            c = Cells()
            if r.name in self.m.globals and self.greg.get(r.name) == rid:
                g = self.m.globals[r.name]
                if g.init is not None: self.init_cells(c.d, 0, g.ty, g.init, mem)
            mem[rid] = c
            return c
        raise Unsupported('content of ' + r.name)
    def init_cells(self, d, off, ty, v, mem):
        if v.k == 'zero' or v.k == 'undef': return
        if ty.k == 'arr':
            s = size_of(ty.e)
            if v.k == 'str':
                for i, b in enumerate(v.v): d[off + i] = (1, 'i', b)
                return
            for i, e in enumerate(v.v): self.init_cells(d, off + i * s, ty.e, e, mem)
            return
        if ty.k == 'struct':
            for o, t, e in zip(struct_offsets(ty), ty.e, v.v): self.init_cells(d, off + o, t, e, mem)
            return
        if ty.k == 'vec':
            s = size_of(ty.e)
            for i, e in enumerate(v.v): self.init_cells(d, off + i * s, ty.e, e, mem)
            return
        x = self.const_val(v, mem)
        kind = {'int': 'i', 'ptr': 'p'}.get(ty.k, 'f')
        if ty.k == 'int' and ty.n == 1: x = zext(x, 1, 8)
        d[off] = (size_of(ty), kind, x)
    def const_val(self, v, mem):
        k = v.k
        if k == 'const': return bool(v.v) if v.ty.n == 1 else v.v
        if k == 'fconst': return self.fconst(v.ty, v.v)
        if k == 'null': return NULL
        if k == 'zero': return self.zeroval(v.ty)
        if k == 'undef': return self.freshval(v.ty, 'undef') if v.ty.k != 'metadata' else None
        if k == 'global': return self.global_ptr(v.v, mem)
        if k == 'agg': return [self.const_val(e, mem) for e in v.v]
        if k == 'str': return list(v.v)
        if k == 'cexpr':
            if v.v == 'gep':
                bt, ops = v.x
                return self.gep(bt, [self.const_val(o, mem) for o in ops], [o.ty for o in ops])
            if v.v in ('bitcast', 'addrspacecast'): return self.const_val(v.x, mem)
            if v.v == 'ptrtoint': return self.ptrtoint(self.const_val(v.x, mem))
            if v.v == 'inttoptr':
                return Ptr([(True, 0, Lin.of(self.const_val(v.x, mem)))])
            if v.v in ('trunc',): return trunc(self.const_val(v.x, mem), v.x.ty.n, v.ty.n)
            if v.v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                return iop(v.v, v.ty.n, self.const_val(v.x[0], mem), self.const_val(v.x[1], mem))
        raise Unsupported('const %r %r' % (k, v.v))
    def ptrtoint(self, p):
        r = None
        for g, rid, off in p.alts:
            if rid == 0: a = off.val()
            else:
                reg = self.regions[rid]
                if reg.kind == 'func': b = 0x10000000 + rid * 16
                else: b = 0x100000000 * (rid + 16)
                a = Lin(b).add(off).val()
            r = a if r is None else iIte(g, 64, a, r) if g is not True else a
        return r
    def inttoptr(self, v):
        if not is_sym(v):
            if v >= 0x1000000000:
                rid = v // 0x100000000 - 16
                return Ptr([(True, rid, Lin(v % 0x100000000))])
            if 0x10000000 <= v < 0x100000000:
                return Ptr([(True, (v - 0x10000000) // 16, Lin((v - 0x10000000) % 16))])
            return Ptr([(True, 0, Lin(v))])
        if v.decl().kind() == z3.Z3_OP_ITE:
            return ptr_ite(v.arg(0), self.inttoptr(norm(v.arg(1))), self.inttoptr(norm(v.arg(2))))
        l = Lin.of(v)
        c = l.c
        if c >= 0x1000000000:
            rid = c // 0x100000000 - 16
            l2 = Lin(c % 0x100000000, dict(l.t))
            return Ptr([(True, rid, l2)])
        raise Unsupported('inttoptr symbolic')

    def gep(self, bt, vals, tys):
        p = vals[0]
        off = Lin(0)
        t = bt
        for i, (v, vt) in enumerate(zip(vals[1:], tys[1:])):
            if i > 0 and t.k == 'struct':
                assert not is_sym(v)
                off = off.add(Lin(struct_offsets(t)[v])); t = t.e[v]; continue
            if i > 0: t = t.e
            s = size_of(t)
            if is_sym(v):
                if vt.n < 64: v = z3.SignExt(64 - vt.n, v)
                off = off.add(Lin.of(v).scale(s))
            else: off = off.add(Lin(sgn(v, vt.n) * s))
        if off.const() and off.c == 0: return p
        return p.offset(off)

    # ------------------------------------------------------------ memory
    def boundcond(self, r, off, sz):
        """in-bounds condition for [off, off+sz) in region r"""
        if r.kind == 'func': return False
        if r.kind == 'cells':
            if off.const(): return 0 <= sgn(off.c, 64) and sgn(off.c, 64) + sz <= r.size
            if sz > r.size: return False
            g = off.gcd() & -off.gcd() if off.gcd() else 1
            # divide out the power of two when possible
            while g > 1 and (sgn(off.c, 64) % g or (r.size - sz) < 0): g //= 2
            if g > 1:
                return z3.ULE(bv(off.div(g).val(), 64), z3.BitVecVal((r.size - sz) // g, 64))
            return z3.ULE(bv(off.val(), 64), z3.BitVecVal(r.size - sz, 64))
        if r.kind == 'array':
            if off.divisible(r.es) and sz == r.es:
                return icmp('ult', 64, off.div(r.es).val(), r.n)
            if r.es == 1 and sz > 1:
                # multi-byte access to a byte array
                i = off.val()
                return bAnd(icmp('ult', 64, i, r.n), icmp('ule', 64, sz, iop('sub', 64, r.n, i)))
            raise Unsupported('array access: size %d at %r in %s' % (sz, off, r.name))
        return False
    def mem_load(self, ty, p, mem, pc, what='load'):
        k = ty.k
        if k in ('arr', 'vec'):
            s = size_of(ty.e)
            return [self.mem_load(ty.e, p.offset(Lin(i * s)), mem, pc, what) for i in range(ty.n)]
        if k == 'struct':
            return [self.mem_load(t, p.offset(Lin(o)), mem, pc, what) for o, t in zip(struct_offsets(ty), ty.e)]
        sz = size_of(ty)
        res = NONE
        for g, rid, off in reversed(p.alts):
            r = self.regions[rid]
            bc = self.boundcond(r, off, sz)
            if bc is not True:
                self.add_ob('memory-safety: %s of %s in %s' % (what, r.name, self.fname()), pc, bIte(g, bc, True), 'mem')
            if r.kind == 'cells': 
                if bc is False: v = self.freshval(ty, 'oob')
                else: v = self.cell_read(r, self.content(rid, mem), off, ty, sz, pc)
            elif r.kind == 'array':
                v = self.arr_load(r, mem[rid], off, ty, sz)
            else: v = self.freshval(ty, 'invalid')
            res = v if res is NONE else self.ite(g, ty, v, res)
        return res
    def mem_store(self, ty, v, p, mem, pc, what='store'):
        k = ty.k
        if k in ('arr', 'vec'):
            s = size_of(ty.e)
            for i in range(ty.n): self.mem_store(ty.e, v[i], p.offset(Lin(i * s)), mem, pc, what)
            return
        if k == 'struct':
            for o, t, x in zip(struct_offsets(ty), ty.e, v): self.mem_store(t, x, p.offset(Lin(o)), mem, pc, what)
            return
        sz = size_of(ty)
        for g, rid, off in p.alts:
            r = self.regions[rid]
            bc = self.boundcond(r, off, sz)
            if r.const: bc = False
            if bc is not True:
                self.add_ob('memory-safety: %s to %s in %s' % (what, r.name, self.fname()), pc, bIte(g, bc, True), 'mem')
            if bc is False: continue
            if r.kind == 'cells':
                mem[rid] = self.cell_write(r, self.content(rid, mem), off, ty, sz, v, g, pc)
            elif r.kind == 'array':
                mem[rid] = self.arr_store(r, mem[rid], off, ty, sz, v, g)
    def tkind(self, ty): return {'int': 'i', 'ptr': 'p'}.get(ty.k, 'f')
    def candidates(self, r, off, sz):
        g = off.gcd()
        g = g & -g if g else 1     # largest power of two dividing every coefficient
        full = off.gcd()
        c = sgn(off.c, 64)
        step = full if full else 1
        # offsets o in [0, size-sz] with o = c mod step
        o = c % step
        out = []
        while o + sz <= r.size:
            out.append(o); o += step
        if len(out) > 4096: raise Unsupported('too many candidate cells in ' + r.name)
        return out
    def cell_read(self, r, cells, off, ty, sz, pc=()):
        if off.const(): return self.cell_get(r, cells.d, sgn(off.c, 64), ty, sz)
        res = NONE
        ov = bv(off.val(), 64)
        prev = None
        cs = self.candidates(r, off, sz)
        if ty.k == 'ptr' and len(cs) > 1: cs = [o for o in cs if not self.infeasible([x for x in pc if self.discrete(x)] + [ov == z3.BitVecVal(o, 64)], 500)]
        for o in cs:
            try: v = self.cell_get(r, cells.d, o, ty, sz)
            except Unsupported:
                if self.infeasible(list(pc) + [ov == z3.BitVecVal(o, 64)], 2000): continue
                raise
            if res is NONE: res = v
            else: res = self.ite(simpb(ov == z3.BitVecVal(o, 64)), ty, v, res)
        if res is NONE: return self.freshval(ty, 'oob')
        return res
    def cell_get(self, r, d, o, ty, sz):
        e = d.get(o)
        kind = self.tkind(ty)
        if e is not None and e[0] == sz:
            return self.conv(e[1], kind, e[2], ty, sz)
        if e is None and not self.overlaps(d, o, sz):
            return self.default_val(r, o, ty, sz)
        # assemble bytes
        bs = [self.byte_at(r, d, o + i) for i in range(sz)]
        if all(not is_sym(b) for b in bs):
            x = 0
            for i, b in enumerate(bs): x |= b << (8 * i)
        else:
            x = norm(z3.simplify(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))) if sz > 1 else bs[0]
        return self.conv('i', kind, x, ty, sz)
    def overlaps(self, d, o, sz):
        for q in range(o - 15, o + sz):
            e = d.get(q)
            if e is not None and q + e[0] > o: return True
        return False
    def byte_at(self, r, d, o):
        for q in range(o, o - 16, -1):
            e = d.get(q)
            if e is not None and q + e[0] > o:
                if e[1] == 'p': raise Unsupported('byte of pointer')
                x = e[2]
                if e[1] == 'f':
                    if self.real(): raise Unsupported('byte of real-valued float')
                    x = x.bv
                k = (o - q) * 8
                if not is_sym(x): return (x >> k) & 255
                return norm(z3.simplify(z3.Extract(k + 7, k, x))) if e[0] > 1 else x
        return bv8(self.default_val(r, o, INT(8), 1))
    def default_val(self, r, o, ty, sz):
        if r.default == 'zero': return self.zeroval(ty)
        nm = 'uninit_%s_%d_%d_%d' % (r.name, r.rid, o, sz)
        k = ty.k
        if k == 'int': return z3.BitVec(nm, ty.n if ty.n > 1 else 8) if ty.n > 1 else z3.Bool(nm)
        if k in ('float', 'double'): return self.ffresh(nm + 'f' if self.real() else nm, FW[k])
        if k == 'ptr': return Ptr([(True, 0, Lin.of(z3.BitVec(nm, 64)))])
        raise Unsupported('default %r' % ty)
    def conv(self, k1, k2, v, ty, sz):
        if k1 == k2:
            if k1 == 'i' and ty.n == 1 : return trunc(v, 8, 1) if not isinstance(v, bool) and not z3.is_bool(v) else v
            if k1 == 'i' and ty.n < sz * 8: return trunc(v, sz * 8, ty.n)
            return v
        if k1 == 'i' and k2 == 'f':
            w = sz * 8
            if self.real():
                if not is_sym(v): return self.fbits(v, w)
                k = v.get_id()
                if k in self.rcache: return self.rcache[k][0]
                raise Unsupported('float read of integer bits in real mode')
            if not is_sym(v): return FV(w, bits=v)
            return FV(w, bv=v)
        if k1 == 'f' and k2 == 'i':
            if self.real():
                if not is_sym(v): return frac_to_bits(v, sz * 8)
                # opaque bits: may only be copied back
                b = z3.BitVec(self.fresh('realbits'), sz * 8)
                self.rcache[b.get_id()] = (v, b)
                return b
            return v.bv
        if k1 == 'p' and k2 == 'i': return self.ptrtoint(v)
        if k1 == 'i' and k2 == 'p': return self.inttoptr(v)
        raise Unsupported('conv %s->%s' % (k1, k2))
    def cell_write(self, r, cells, off, ty, sz, v, g, pc=()):
        kind = self.tkind(ty)
        if ty.k == 'int' and ty.n == 1: v = zext(v, 1, 8)
        elif ty.k == 'int' and ty.n < sz * 8: v = zext(v, ty.n, sz * 8)
        d = dict(cells.d)
        ity = ty if ty.k != 'int' else INT(sz * 8)
        if off.const():
            o = sgn(off.c, 64)
            if g is not True: v = self.ite(g, ity, v, self.cell_get(r, d, o, ity, sz))
            self.cell_put(r, d, o, sz, kind, v)
            return Cells(d)
        ov = bv(off.val(), 64)
        for o in self.candidates(r, off, sz):
            c = bAnd(g, simpb(ov == z3.BitVecVal(o, 64)))
            if c is False: continue
            e = d.get(o)
            if (e is None or e[0] != sz or e[1] != kind) and self.infeasible(list(pc) + [ov == z3.BitVecVal(o, 64)], 2000): continue
            old = self.cell_get(r, d, o, ity, sz)
            self.cell_put(r, d, o, sz, kind, self.ite(c, ity, v, old))
        return Cells(d)
    def cell_put(self, r, d, o, sz, kind, v):
        e = d.get(o)
        if e is not None and e[0] == sz:
            d[o] = (sz, kind, v); return
        # split overlapping cells to bytes
        for q in list(range(o - 15, o + sz)):
            e = d.get(q)
            if e is None: continue
            if q + e[0] <= o: continue
            if q >= o and q + e[0] <= o + sz:
                del d[q]; continue
            bs = [(q + i, self.byte_at(r, d, q + i)) for i in range(e[0])]
            del d[q]
            for a, b in bs:
                if not (o <= a < o + sz): d[a] = (1, 'i', b)
        d[o] = (sz, kind, v)

    # arrays ----------------------------------------------------------
    def arr_load(self, r, c, off, ty, sz):
        if sz == r.es and off.divisible(r.es):
            return self.elem_out(r, self.aread(r, c, off.div(r.es).val()), ty)
        if r.es == 1 and ty.k == 'int' and off.divisible(1):
            bs = [bv(self.aread(r, c, off.add(Lin(i)).val()), 8) for i in range(sz)]
            return norm(z3.simplify(z3.Concat(*list(reversed(bs)))))
        raise Unsupported('array access')
    def elem_out(self, r, t, ty):
        """raw elem term -> value of ty"""
        if r.ety.k in FW:
            if ty.k in FW: return self.funraw(t, FW[ty.k])
            if self.real(): raise Unsupported('int load of real array')
            return norm(t)
        if ty.k in FW:
            if self.real():
                if is_sym(t) and t.get_id() in self.rcache: return self.rcache[t.get_id()][0]
                raise Unsupported('float load of int array')
            return self.funraw(t, FW[ty.k])
        if ty.k == 'ptr': raise Unsupported('pointer arrays')
        if ty.n == 1: return trunc(t, 8, 1)
        return t
    def elem_in(self, r, v, ty):
        if r.ety.k in FW:
            if ty.k in FW: return self.fraw(v, FW[ty.k])
            if self.real():
                if is_sym(v) and v.get_id() in self.rcache: return rz(self.rcache[v.get_id()][0])
                if not is_sym(v): return rz(bits_to_frac(v, r.es * 8))
                raise Unsupported('int store to real array')
            return bv(v, ty.n)
        if ty.k in FW:
            if self.real(): raise Unsupported('float store to int array')
            return bv(v.bv, FW[ty.k])
        if ty.n == 1: return bv(zext(v, 1, 8), 8)
        return bv(v, ty.n)
    def aread(self, r, c, i):
        """raw element at index term i (python int or BV64)"""
        while True:
            if isinstance(c, AB): return c.f(bv(i, 64))
            if isinstance(c, AC): return c.v
            if isinstance(c, AS):
                e = self.idx_eq(c.i, i)
                if e is True: return c.v
                if e is False: c = c.p; continue
                return zIf(e, c.v, self.aread(r, c.p, i))
            if isinstance(c, AR):
                inr = simpb(bAnd(icmp('ule', 64, c.lo, i), icmp('ult', 64, i, c.hi)))
                if inr is True: return c.fn(i)
                if inr is False: c = c.p; continue
                return zIf(inr, c.fn(i), self.aread(r, c.p, i))
            if isinstance(c, AI):
                return zIf(c.c, self.aread(r, c.a, i), self.aread(r, c.b, i))
            raise Unsupported('aread')
    def idx_eq(self, a, b):
        if not is_sym(a) and not is_sym(b): return a == b
        d = Lin.of(a).sub(Lin.of(b))
        if d.const(): return d.c == 0
        return simpb(bv(a, 64) == bv(b, 64))
    def arr_store(self, r, c, off, ty, sz, v, g):
        if sz == r.es and off.divisible(r.es):
            i = off.div(r.es).val()
            x = self.elem_in(r, v, ty)
            if g is not True: x = zIf(g, x, self.aread(r, c, i))
            return AS(c, i, x)
        if r.es == 1 and ty.k == 'int':
            for k in range(sz):
                i = off.add(Lin(k)).val()
                x = bv(trunc(v, ty.n, 8) if not is_sym(v) else z3.Extract(8 * k + 7, 8 * k, v), 8) if is_sym(v) else z3.BitVecVal((v >> (8 * k)) & 255, 8)
                if g is not True: x = zIf(g, x, self.aread(r, c, i))
                c = AS(c, i, x)
            return c
        raise Unsupported('array store')
    def memset(self, p, b, n, mem, pc):
        if not is_sym(n):
            for g, rid, off in p.alts:
                r = self.regions[rid]
                if n == 0: continue
                if r.kind == 'cells' and off.const():
                    ok = 0 <= sgn(off.c, 64) and sgn(off.c, 64) + n <= r.size
                    if not ok:
                        self.add_ob('memory-safety: memset of %s in %s' % (r.name, self.fname()), pc, bNot(g), 'mem'); continue
                    d = dict(self.content(rid, mem).d)
                    o = sgn(off.c, 64)
                    for q in range(o - 15, o + n):
                        if q in d and q + d[q][0] > o and not (q >= o and q + d[q][0] <= o + n): 
                            self.cell_put(r, d, max(q, o), 1, 'i', 0)
                    for q in [q for q in d if o <= q < o + n]: del d[q]
                    if g is not True: raise Unsupported('guarded memset')
                    if not is_sym(b) and b == 0 and r.default == 'zero': pass
                    else:
                        # write as 4-byte words where aligned, bytes otherwise
                        q = o
                        while q < o + n:
                            if q % 4 == 0 and q + 4 <= o + n:
                                d[q] = (4, 'i', (b * 0x01010101) if not is_sym(b) else z3.Concat(b, b, b, b)); q += 4
                            else: d[q] = (1, 'i', b); q += 1
                    mem[rid] = Cells(d); continue
                self.memset_arr(g, rid, off, b, n, mem, pc)
            return
        p = self.prune(p, pc)
        for g, rid, off in p.alts: self.memset_arr(g, rid, off, b, n, mem, pc)
    def prune(self, p, pc):
        """drop the alternatives of a pointer that are impossible here"""
        if len(p.alts) == 1: return p
        alts = [a for a in p.alts if a[0] is True or not self.infeasible(list(pc) + [a[0]])]
        if len(alts) == 1: return Ptr([(True, alts[0][1], alts[0][2])])
        return Ptr(alts)
    def multiple(self, l, es, pc):
        """Lin that is provably a multiple of es -> the same as es*q, else None"""
        if l.divisible(es): return l
        if es & (es - 1): return None
        t = l.val(); k = es.bit_length() - 1
        if is_sym(t) and self.infeasible(list(pc) + [z3.Extract(k - 1, 0, t) != 0], 4000):
            q = z3.LShR(t, k)
            return Lin(0, {q.get_id(): (q, es)})
        return None
    def blend(self, r, c, i, lo, hi, byte):
        """element i of an array whose bytes [lo,hi) are replaced by byte(position)"""
        old = self.aread(r, c, i)
        if r.ety.k in FW and self.real(): raise Unsupported('byte access to a real array')
        parts = []
        for b in range(r.es):
            pos = iop('add', 64, iop('mul', 64, i, r.es), b)
            inr = bAnd(icmp('ule', 64, lo, pos), icmp('ult', 64, pos, hi))
            parts.append(zIf(inr, byte(pos), z3.Extract(8 * b + 7, 8 * b, old)) if is_sym(inr) else (byte(pos) if inr else z3.Extract(8 * b + 7, 8 * b, old)))
        return z3.Concat(*reversed(parts)) if len(parts) > 1 else parts[0]
    def abyte(self, r, c, pos):
        """byte at byte position pos of an array region"""
        if r.es == 1: return self.aread(r, c, pos)
        if r.es & (r.es - 1): raise Unsupported('byte access')
        if r.ety.k in FW and self.real(): raise Unsupported('byte access to a real array')
        k = r.es.bit_length() - 1
        w = self.aread(r, c, simpi(iop('lshr', 64, pos, k)))
        sh = iop('mul', 64, iop('and', 64, pos, r.es - 1), 8)
        if not is_sym(sh): return z3.Extract(sh + 7, sh, w)
        sh = trunc(sh, 64, r.es * 8) if r.es < 8 else sh
        return z3.Extract(7, 0, z3.LShR(w, bv(sh, r.es * 8)))
    def memset_arr(self, g, rid, off, b, n, mem, pc):
        r = self.regions[rid]
        if r.kind == 'null':
            self.add_ob('memory-safety: memset of null in %s' % self.fname(), pc, bOr(bNot(g), icmp('eq', 64, n, 0)), 'mem'); return
        if r.kind != 'array': raise Unsupported('symbolic memset of ' + r.name)
        ln = Lin.of(n)
        off0, ln0 = off, ln
        off = self.multiple(off, r.es, pc); ln = self.multiple(ln, r.es, pc)
        if off is None or ln is None:
            lo = off0.val(); cnt = ln0.val(); tot = iop('mul', 64, r.n, r.es)
            ok = bAnd(icmp('ule', 64, lo, tot), icmp('ule', 64, cnt, iop('sub', 64, tot, lo)))
            self.add_ob('memory-safety: memset of %s in %s' % (r.name, self.fname()), pc, bOr(bNot(g), ok), 'mem')
            c = mem[rid]; hi = iop('add', 64, lo, cnt)
            nc = AR(c, 0, r.n, lambda i, c=c: self.blend(r, c, i, lo, hi, lambda p_: bv(b, 8)))
            mem[rid] = nc if g is True else AI(g, nc, c)
            return
        lo = off.div(r.es).val(); cnt = ln.div(r.es).val()
        ok = bAnd(icmp('ule', 64, lo, r.n), icmp('ule', 64, cnt, iop('sub', 64, r.n, lo)))
        self.add_ob('memory-safety: memset of %s in %s' % (r.name, self.fname()), pc, bOr(bNot(g), ok), 'mem')
        if r.es == 1: x = bv(b, 8)
        else:
            if is_sym(b): x = z3.Concat(*([b] * r.es))
            else:
                k = 0
                for _ in range(r.es): k = (k << 8) | b
                x = k
            if r.ety.k in FW: x = self.fraw(self.fbits(x, r.es * 8), r.es * 8) if not is_sym(x) else x
            else: x = bv(x, r.es * 8)
        c = mem[rid]
        nc = AR(c, lo, iop('add', 64, lo, cnt), lambda i, x=x: x)
        mem[rid] = nc if g is True else AI(g, nc, c)
    def memcpy(self, dst, src, n, mem, pc, move=False):
        if not is_sym(n):
            if n == 0: return
            if len(src.alts) == 1 and len(dst.alts) == 1:
                sr = self.regions[src.alts[0][1]]; dr = self.regions[dst.alts[0][1]]
                if sr.kind == 'array' and dr.kind == 'array' and n > 64:
                    return self.memcpy_arr(dst, src, n, mem, pc)
            else:
                sr = dr = None
            # element-wise: follow the source's cell structure
            chunks = None
            a = src.alts[0]
            if sr is not None and sr.kind == 'cells' and a[2].const():
                o = sgn(a[2].c, 64)
                if o < 0 or o + n > sr.size:
                    self.add_ob('memory-safety: memcpy from %s in %s' % (sr.name, self.fname()), pc, False, 'mem'); return
                d = self.content(a[1], mem).d
                chunks = []
                q = o
                while q < o + n:
                    e = d.get(q)
                    if e is not None and q + e[0] <= o + n:
                        chunks.append((q - o, e[0], e[1])); q += e[0]
                    elif e is None and not self.overlaps(d, q, 4) and q % 4 == 0 and q + 4 <= o + n and (dr is None or dr.kind == 'cells' or dr.es == 4):
                        chunks.append((q - o, 4, 'i')); q += 4
                    else:
                        chunks.append((q - o, 1, 'i')); q += 1
            else:
                es = 4
                if sr is not None and sr.kind == 'array': es = sr.es
                elif dr is not None and dr.kind == 'array': es = dr.es
                if n % es: es = 1
                chunks = [(i, es, 'f' if (es == 4 and sr is not None and sr.kind == 'array' and sr.ety.k in FW) else 'i') for i in range(0, n, es)]
            tmp = []
            for o, s, kd in chunks:
                ty = PTR if kd == 'p' else (INT(8 * s) if kd == 'i' else (F32 if s == 4 else F64))
                tmp.append((o, ty, self.mem_load(ty, src.offset(Lin(o)), mem, pc, 'memcpy')))
            for o, ty, v in tmp: self.mem_store(ty, v, dst.offset(Lin(o)), mem, pc, 'memcpy')
            return
        self.memcpy_arr(dst, src, n, mem, pc)
    def memcpy_arr(self, dst, src, n, mem, pc):
        src = self.prune(src, pc); dst = self.prune(dst, pc)
        if len(src.alts) != 1 or len(dst.alts) != 1: raise Unsupported('symbolic memcpy through multi-region pointer')
        _, sr_, so = src.alts[0]; _, dr_, do = dst.alts[0]
        sr = self.regions[sr_]; dr = self.regions[dr_]
        if sr.kind != 'array' or dr.kind != 'array': raise Unsupported('symbolic memcpy %s -> %s' % (sr.name, dr.name))
        es = sr.es
        ln = Lin.of(n)
        so0, do0, ln0 = so, do, ln
        so = self.multiple(so, es, pc); do = self.multiple(do, es, pc); ln = self.multiple(ln, es, pc)
        if so is None or do is None or ln is None or sr.es != dr.es or sr.ety.k != dr.ety.k:
            cnt = ln0.val()
            for r, o in ((sr, so0), (dr, do0)):
                tot = iop('mul', 64, r.n, r.es)
                ok = bAnd(icmp('ule', 64, o.val(), tot), icmp('ule', 64, cnt, iop('sub', 64, tot, o.val())))
                self.add_ob('memory-safety: memcpy %s in %s' % (r.name, self.fname()), pc, ok, 'mem')
            sc = mem[sr_]; dc = mem[dr_]
            lo = do0.val(); hi = iop('add', 64, lo, cnt); sh = so0.sub(do0).val()
            mem[dr_] = AR(dc, 0, dr.n, lambda i: self.blend(dr, dc, i, lo, hi, lambda p_: self.abyte(sr, sc, simpi(iop('add', 64, p_, sh)))))
            return
        s0 = so.div(es).val(); d0 = do.div(es).val(); cnt = ln.div(es).val()
        for r, o in ((sr, s0), (dr, d0)):
            ok = bAnd(icmp('ule', 64, o, r.n), icmp('ule', 64, cnt, iop('sub', 64, r.n, o)))
            self.add_ob('memory-safety: memcpy %s in %s' % (r.name, self.fname()), pc, ok, 'mem')
        sc = mem[sr_]
        sh = iop('sub', 64, s0, d0)
        mem[dr_] = AR(mem[dr_], d0, iop('add', 64, d0, cnt), lambda i, sc=sc, sh=sh, sr=sr: self.aread(sr, sc, simpi(iop('add', 64, i, sh))))

    # ------------------------------------------------------------ merging
    def merge_mem(self, c, a, b):
        """memory that is a when c, else b"""
        if a is b: return a
        out = {}
        for rid in set(a) | set(b):
            x = a.get(rid); y = b.get(rid)
            if x is y: out[rid] = x; continue
            if x is None: x = self.content_or_none(rid, a)
            if y is None: y = self.content_or_none(rid, b)
            if x is None: out[rid] = y; continue
            if y is None: out[rid] = x; continue
            if isinstance(x, Cells): out[rid] = self.merge_cells(self.regions[rid], c, x, y)
            else: out[rid] = AI(c, x, y)
        return out
    def content_or_none(self, rid, mem):
        r = self.regions[rid]
        if r.kind == 'cells' and self.greg.get(r.name) == rid: return self.content(rid, mem)
        return None
    def merge_cells(self, r, c, x, y):
        d = {}
        offs = sorted(set(x.d) | set(y.d))
        dx, dy = x.d, y.d
        ok = True
        done = set()
        for o in offs:
            e = dx.get(o); f = dy.get(o)
            if e is f: d[o] = e; continue
            if e is not None and f is not None and e[0] == f[0]:
                sz = e[0]
                if e[1] == f[1]:
                    ty = self.kty(e[1], sz)
                    d[o] = (sz, e[1], self.ite(c, ty, e[2], f[2]))
                else:
                    k = 'p' if 'p' in (e[1], f[1]) else 'f'
                    ty = self.kty(k, sz)
                    d[o] = (sz, k, self.ite(c, ty, self.conv(e[1], k, e[2], ty, sz), self.conv(f[1], k, f[2], ty, sz)))
                continue
            one = e if f is None else (f if e is None else None)
            if one is not None and not self.overlaps(dx if e is None else dy, o, one[0]):
                sz, k, v = one
                ty = self.kty(k, sz)
                dv = self.default_val(r, o, ty, sz)
                if r.default == 'uninit' and not r.tag:
                    d[o] = one      # uninitialised on the other path: any value will do
                else: d[o] = (sz, k, self.ite(c, ty, v, dv) if f is None else self.ite(c, ty, dv, v))
                continue
            ok = False; break
        if ok: return Cells(d)
        # fall back: byte-wise
        d = {}
        for o in range(r.size):
            hx = self.overlaps(dx, o, 1); hy = self.overlaps(dy, o, 1)
            if not hx and not hy: continue
            a = self.byte_at(r, dx, o); b = self.byte_at(r, dy, o)
            d[o] = (1, 'i', iIte(c, 8, a, b))
        return Cells(d)
    def kty(self, k, sz): return PTR if k == 'p' else (INT(8 * sz) if k == 'i' else (F32 if sz == 4 else F64))

    def merge_edges(self, edges, phitypes):
        """edges: list of Edge (mutually exclusive). -> pc, mem, phi"""
        edges = [e for e in edges if not any(x is False for x in e.pc)]
        if not edges: return None
        if len(edges) == 1:
            e = edges[0]; return e.pc, e.mem, e.phi
        edges = list(edges)
        # pairwise merge of complementary siblings first
        changed = True
        while changed and len(edges) > 1:
            changed = False
            for i in range(len(edges)):
                for j in range(i + 1, len(edges)):
                    a, b = edges[i], edges[j]
                    if len(a.pc) == len(b.pc) and a.pc and same_prefix(a.pc, b.pc, len(a.pc) - 1) and complementary(a.pc[-1], b.pc[-1]):
                        c = a.pc[-1]
                        m = Edge(a.pc[:-1], self.merge_mem(c, a.mem, b.mem), None,
                                 {k: self.ite(c, phitypes[k], a.phi[k], b.phi[k]) for k in a.phi})
                        edges.pop(j); edges[i] = m; changed = True; break
                if changed: break
        while len(edges) > 1:
            b = edges.pop(); a = edges.pop()
            n = 0
            while n < len(a.pc) and n < len(b.pc) and a.pc[n].eq(b.pc[n]): n += 1
            ra = a.pc[n:]; rb = b.pc[n:]
            c = True
            for x in ra: c = bAnd(c, x)
            cb = True
            for x in rb: cb = bAnd(cb, x)
            if len(rb) < len(ra):
                cond = bNot(cb)
                sel = cond
            else: sel = c
            o = simpb(bOr(c, cb))
            pc = a.pc[:n] + ((o,) if o is not True else ())
            edges.append(Edge(pc, self.merge_mem(sel, a.mem, b.mem), None,
                              {k: self.ite(sel, phitypes[k], a.phi[k], b.phi[k]) for k in a.phi}))
        e = edges[0]
        return e.pc, e.mem, e.phi

    # ------------------------------------------------------------ functions
    def finfo(self, f):
        if f.name in self.loopinfo: return self.loopinfo[f.name]
        succ = {}
        for b in f.order:
            t = f.blocks[b].term
            if t.op == 'br': s = [t.x[0]]
            elif t.op == 'condbr': s = list(dict.fromkeys(t.x))
            elif t.op == 'switch': s = list(dict.fromkeys([t.x[0]] + [l for _, l in t.x[1]]))
            else: s = []
            succ[b] = s
        pred = {b: [] for b in f.order}
        # reachable RPO
        seen = set(); post = []
        st = [(f.entry, iter(succ[f.entry]))]; seen.add(f.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(succ[s]))); break
            else:
                post.append(b); st.pop()
        rpo = post[::-1]; num = {b: i for i, b in enumerate(rpo)}
        for b in rpo:
            for s in succ[b]: pred[s].append(b)
        # dominators
        dom = {b: None for b in rpo}; dom[f.entry] = f.entry
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                nd = None
                for p in pred[b]:
                    if dom.get(p) is None: continue
                    if nd is None: nd = p
                    else:
                        x, y = p, nd
                        while x != y:
                            while num[x] > num[y]: x = dom[x]
                            while num[y] > num[x]: y = dom[y]
                        nd = x
                if dom[b] != nd: dom[b] = nd; ch = True
        def dominates(a, b):
            while True:
                if a == b: return True
                if b == f.entry: return False
                b = dom[b]
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if dominates(s, b):
                    body = loops.setdefault(s, {s})
                    wk = [b]
                    while wk:
                        x = wk.pop()
                        if x in body: continue
                        body.add(x); wk += pred[x]
                elif num[s] <= num[b]: raise Unsupported('irreducible control flow in ' + f.name)
        info = (succ, rpo, num, loops)
        self.loopinfo[f.name] = info
        return info

    def call_function(self, name, args, pc, mem):
        f = self.m.getf(name)
        if self.stack.count(name) >= 3 and self.infeasible(pc): return None
        if len(self.stack) > 60: raise Unsupported('recursion too deep in ' + name)
        self.functions[name] = self.functions.get(name, 0) + 1
        self.stack.append(name)
        env = {}
        for i, ((t, pn), a) in enumerate(zip(f.params, args)):
            env[pn] = a
        info = self.finfo(f)
        rets = []
        e = Edge(tuple(pc), dict(mem), None, {})
        self.region(f, set(info[1]), f.entry, [e], env, rets, None)
        self.stack.pop()
        if not rets: return None
        pt = {'ret': f.rty}
        r = self.merge_edges(rets, pt)
        return r

    def region(self, f, blocks, header, in_edges, env, rets, curloop):
        """execute the acyclic region `blocks` from `header`; inner loops are collapsed.
        returns (back_edges, exit_edges{target:[edges]})"""
        succ, rpo, num, loops = self.finfo(f)
        pend = {header: list(in_edges)}
        back = []; exits = {}
        skip = set()
        order = [b for b in rpo if b in blocks]
        for b in order:
            if b in skip or b not in pend: continue
            edges = pend.pop(b)
            if b in loops and not (b == curloop):
                body = loops[b]
                skip |= body
                ex = self.loop(f, b, body, edges, env, rets)
                for tgt, es in ex.items():
                    if tgt in blocks: pend.setdefault(tgt, []).extend(es)
                    else: exits.setdefault(tgt, []).extend(es)
                continue
            blk = f.blocks[b]
            pt = {p.res: p.ty for p in blk.phis}
            m = self.merge_edges(edges, pt)
            if m is None: continue
            pc, mem, phi = m
            mem = dict(mem)
            env.update(phi)
            out = self.block(f, blk, pc, mem, env, rets)
            for tgt, e in out:
                if tgt == curloop and curloop is not None: back.append(e)
                elif tgt in blocks: pend.setdefault(tgt, []).append(e)
                else: exits.setdefault(tgt, []).append(e)
        return back, exits

    def mkedge(self, f, src, tgt, pc, mem, env):
        phi = {}
        for p in f.blocks[tgt].phis:
            for v, lab in p.x:
                if lab == src: phi[p.res] = self.val(v, env, mem); break
        return Edge(pc, mem, src, phi)

    def val(self, v, env, mem):
        if v.k == 'local': return env[v.v]
        if v.k == 'byval': return self.val(v.v, env, mem)
        return self.const_val(v, mem)

    def block(self, f, blk, pc, mem, env, rets):
        pc = tuple(pc)
        for ins in blk.insts:
            r = self.inst(f, ins, env, mem, pc)
            if r is not None:
                if r[0] == 'pc':
                    pc = r[1]
                    if pc is None or any(x is False for x in pc): return []
                    if len(r) > 2:
                        mem = r[2]
        t = blk.term
        if t.op == 'ret':
            rets.append(Edge(pc, mem, blk.name, {'ret': self.val(t.a[0], env, mem)} if t.a else {}))
            return []
        if t.op == 'unreachable':
            return []
        if t.op == 'br':
            return [(t.x[0], self.mkedge(f, blk.name, t.x[0], pc, mem, env))]
        if t.op == 'condbr':
            c = self.val(t.a[0], env, mem)
            c = simpb(c)
            if t.x[0] == t.x[1]: return [(t.x[0], self.mkedge(f, blk.name, t.x[0], pc, mem, env))]
            if c is True: return [(t.x[0], self.mkedge(f, blk.name, t.x[0], pc, mem, env))]
            if c is False: return [(t.x[1], self.mkedge(f, blk.name, t.x[1], pc, mem, env))]
            nc = bNot(c)
            out = []
            for x in pc:      # already decided by the path condition?
                if x.eq(c): return [(t.x[0], self.mkedge(f, blk.name, t.x[0], pc, mem, env))]
                if x.eq(nc): return [(t.x[1], self.mkedge(f, blk.name, t.x[1], pc, mem, env))]
            if self.opts.get('prune') and self.discrete(c):
                ds = [x for x in pc if self.discrete(x)]
                if self.infeasible(ds + [c], 300): return [(t.x[1], self.mkedge(f, blk.name, t.x[1], pc, mem, env))]
                if self.infeasible(ds + [nc], 300): return [(t.x[0], self.mkedge(f, blk.name, t.x[0], pc, mem, env))]
            out.append((t.x[0], self.mkedge(f, blk.name, t.x[0], pc + (c,), mem, env)))
            out.append((t.x[1], self.mkedge(f, blk.name, t.x[1], pc + (nc,), dict(mem), env)))
            return out
        if t.op == 'switch':
            v = simpi(self.val(t.a[0], env, mem)); n = t.a[0].ty.n
            out = []
            d, cs = t.x
            rest = pc
            bytgt = {}
            for c, lab in cs:
                q = simpb(icmp('eq', n, v, c.v if n > 1 else bool(c.v)))
                if q is False: continue
                if q is True:
                    return out_edges(self, f, blk, bytgt, rest, mem, env, lab)
                bytgt.setdefault(lab, []).append((rest, q))
                rest = rest + (bNot(q),)
            return out_edges(self, f, blk, bytgt, rest, mem, env, d)
        raise Unsupported('terminator ' + t.op)

    # ------------------------------------------------------------ loops
    def loop(self, f, header, body, edges, env, rets):
        hb = f.blocks[header]
        pt = {p.res: p.ty for p in hb.phis}
        m = self.merge_edges(edges, pt)
        if m is None: return {}
        pc, mem, phi = m
        dem = self.dem.get(f.name, f.name)
        pc0, mem0, phi0 = pc, mem, phi
        exits = {}
        limit = self.unroll
        nsym = 0
        it = 0
        forcecut = any(p == "*" or p in dem for p in self.cutpats)
        import loops as L
        if forcecut: limit = 0
        nob = len(self.obs); nret = len(rets)
        while True:
            e2 = dict(env)
            e2.update(phi)
            env.update(phi)
            nrets = []
            back, ex = self.region(f, body, header, [Edge(pc, mem, None, phi)], env, nrets, header)
            rets.extend(nrets)
            for tgt, es in ex.items(): exits.setdefault(tgt, []).extend(es)
            mm = self.merge_edges(back, pt)
            if mm is None: break
            symbolic = not (len(mm[0]) == len(pc) and all(a.eq(b) for a, b in zip(mm[0], pc)))
            if symbolic and self.opts.get('prune') and not forcecut:
                old = set(x.get_id() for x in pc)
                if not any(self.discrete(x) for x in mm[0] if x.get_id() not in old): symbolic = False
                elif self.infeasible([x for x in mm[0] if self.discrete(x)], 500): break
            pc, mem, phi = mm
            it += 1
            if symbolic:
                nsym += 1
                if not forcecut and not self.opts.get('prune') and self.infeasible(pc): break
                if nsym > limit:
                    # cannot finish by unrolling: go back and cut
                    if self.opts.get('bounded') and not forcecut:
                        # bounded stand-in: assume no more iterations (labelled bounded)
                        self.assumed.append('BOUNDED: loop in %s explored up to %d iterations' % (dem, limit))
                        break
                    if self.opts.get('nocut') and not forcecut:
                        self.add_ob('unwinding assertion: loop in %s' % dem, pc, False, 'unwind'); break
                    del self.obs[nob:]; del rets[nret:]
                    return L.cut_loop(self, f, header, body, pc0, mem0, phi0, pt, env, rets)
            elif it > (64 if forcecut else 4096):
                del self.obs[nob:]; del rets[nret:]
                return L.cut_loop(self, f, header, body, pc0, mem0, phi0, pt, env, rets)
        if not self.dry: self.loops.append((dem, 'unrolled', it))
        return exits

    # ------------------------------------------------------------ instructions
    def inst(self, f, ins, env, mem, pc):
        op = ins.op
        V = self.val
        if op in BIN:
            t = ins.ty
            a = V(ins.a[0], env, mem); b = V(ins.a[1], env, mem)
            if t.k == 'vec':
                env[ins.res] = [self.bin(op, t.e, x, y, ins, pc) for x, y in zip(a, b)]
            else: env[ins.res] = self.bin(op, t, a, b, ins, pc)
            return
        if op == 'load':
            p = V(ins.a[0], env, mem)
            env[ins.res] = self.mem_load(ins.ty, p, mem, pc); return
        if op == 'store':
            v = V(ins.a[0], env, mem); p = V(ins.a[1], env, mem)
            self.mem_store(ins.ty, v, p, mem, pc); return
        if op == 'gep':
            env[ins.res] = self.gep(ins.x, [V(o, env, mem) for o in ins.a], [o.ty for o in ins.a]); return
        if op == 'icmp':
            a = V(ins.a[0], env, mem); b = V(ins.a[1], env, mem)
            if ins.ty.k == 'ptr': env[ins.res] = self.pcmp(ins.x, a, b)
            elif ins.ty.k == 'vec': env[ins.res] = [icmp(ins.x, ins.ty.e.n, x, y) for x, y in zip(a, b)]
            else: env[ins.res] = icmp(ins.x, ins.ty.n, a, b)
            return
        if op == 'fcmp':
            a = V(ins.a[0], env, mem); b = V(ins.a[1], env, mem)
            env[ins.res] = self.fcmp(ins.x, FW[ins.ty.k], a, b); return
        if op == 'fneg':
            a = V(ins.a[0], env, mem)
            env[ins.res] = self.fneg(FW[ins.ty.k], a) if ins.ty.k != 'vec' else [self.fneg(FW[ins.ty.e.k], x) for x in a]
            return
        if op == 'select':
            c = V(ins.a[0], env, mem)
            a = V(ins.a[1], env, mem); b = V(ins.a[2], env, mem)
            if ins.a[0].ty.k == 'vec': env[ins.res] = [self.ite(simpb(q), ins.ty.e, x, y) for q, x, y in zip(c, a, b)]
            else: env[ins.res] = self.ite(simpb(tob(c)), ins.ty, a, b)
            return
        if op in CAST:
            a = V(ins.a[0], env, mem); t = ins.ty; ft = ins.x
            if t.k == 'vec' and op != 'bitcast':
                env[ins.res] = [self.cast(op, t.e, ft.e, x) for x in a]
            else: env[ins.res] = self.cast(op, t, ft, a)
            return
        if op == 'call': return self.call(f, ins, env, mem, pc)
        if op == 'alloca':
            r = self._newregion('%s%s' % (f.name[-20:], ins.res), 'cells')
            n = 1
            if ins.a:
                n = V(ins.a[0], env, mem)
                if is_sym(n): raise Unsupported('variable-size alloca')
            r.size = size_of(ins.ty) * n
            mem[r.rid] = Cells()
            env[ins.res] = Ptr([(True, r.rid, Lin(0))]); return
        if op == 'extractvalue':
            a = V(ins.a[0], env, mem)
            for i in ins.x: a = a[i]
            env[ins.res] = a; return
        if op == 'insertvalue':
            a = V(ins.a[0], env, mem); b = V(ins.a[1], env, mem)
            def upd(x, idx):
                x = list(x)
                x[idx[0]] = b if len(idx) == 1 else upd(x[idx[0]], idx[1:])
                return x
            env[ins.res] = upd(a, ins.x); return
        if op == 'extractelement':
            a = V(ins.a[0], env, mem); i = V(ins.a[1], env, mem)
            if is_sym(i): raise Unsupported('symbolic extractelement')
            env[ins.res] = a[i]; return
        if op == 'insertelement':
            a = list(V(ins.a[0], env, mem)); i = V(ins.a[2], env, mem)
            if is_sym(i): raise Unsupported('symbolic insertelement')
            a[i] = V(ins.a[1], env, mem); env[ins.res] = a; return
        if op == 'shufflevector':
            a = V(ins.a[0], env, mem); b = V(ins.a[1], env, mem)
            mk = ins.a[2]
            idx = [0] * mk.ty.n if mk.k == 'zero' else ([0] * mk.ty.n if mk.k == 'undef' else [e.v if e.k == 'const' else 0 for e in mk.v])
            al = list(a) + list(b)
            env[ins.res] = [al[i] for i in idx]; return
        if op == 'freeze':
            env[ins.res] = V(ins.a[0], env, mem); return
        raise Unsupported('instruction %s' % (ins.x if op == 'unsupported' else op))

    def bin(self, op, t, a, b, ins, pc):
        if t.k in FW: return self.farith(op, FW[t.k], a, b)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            z = icmp('eq', t.n, b, 0)
            if z is not False:
                self.add_ob('undefined-behaviour: division by zero in %s' % self.fname(), pc, bNot(z), 'ub')
            if op in ('sdiv', 'srem') and (is_sym(a) or is_sym(b)):
                ov = bAnd(icmp('eq', t.n, a, 1 << (t.n - 1)), icmp('eq', t.n, b, mask(t.n)))
                if ov is not False:
                    self.add_ob('undefined-behaviour: signed division overflow in %s' % self.fname(), pc, bNot(ov), 'ub')
        if op in ('shl', 'lshr', 'ashr') and t.n > 1 and is_sym(b):
            # in C++ an out-of-range shift is undefined: its own obligation (also instrumented at source level)
            self.add_ob('undefined-behaviour: shift amount in %s' % self.fname(), pc, icmp('ult', t.n, b, t.n), 'ub')
        return iop(op, t.n, a, b)
    def cast(self, op, t, ft, a):
        if op in ('fptrunc', 'fpext', 'uitofp', 'sitofp', 'fptoui', 'fptosi'): return self.fcast(op, t, ft, a)
        if op == 'trunc': return trunc(a, ft.n, t.n)
        if op == 'zext': return zext(a, ft.n, t.n)
        if op == 'sext': return sext(a, ft.n, t.n)
        if op == 'ptrtoint':
            v = self.ptrtoint(a)
            if t.n < 64: v = trunc(v, 64, t.n)
            return v
        if op == 'inttoptr': return self.inttoptr(a)
        if op == 'bitcast':
            if ft.k == 'int' and t.k in FW: return self.conv('i', 'f', a, t, FW[t.k] // 8)
            if ft.k in FW and t.k == 'int': return self.conv('f', 'i', a, t, FW[ft.k] // 8)
            if ft.k == t.k and ft.k in ('int', 'ptr'): return a
            if ft.k == 'vec' and t.k == 'int' and ft.e.k in FW:
                bs = [bv(self.conv('f', 'i', x, INT(FW[ft.e.k]), FW[ft.e.k] // 8), FW[ft.e.k]) for x in a]
                return norm(z3.simplify(z3.Concat(*list(reversed(bs)))))
            if ft.k == 'int' and t.k == 'vec':
                w = size_of(t.e) * 8
                out = []
                for i in range(t.n):
                    x = (a >> (w * i)) & mask(w) if not is_sym(a) else norm(z3.simplify(z3.Extract(w * i + w - 1, w * i, a)))
                    out.append(self.conv('i', 'f', x, t.e, w // 8) if t.e.k in FW else x)
                return out
            if ft.k == 'int' and t.k == 'int': return a
            raise Unsupported('bitcast %r %r' % (ft, t))
        raise Unsupported(op)
    def pcmp(self, pr, a, b):
        res = False
        for g1, r1, o1 in a.alts:
            for g2, r2, o2 in b.alts:
                g = bAnd(g1, g2)
                if r1 == r2:
                    d = o1.sub(o2)
                    if d.const():
                        s = sgn(d.c, 64)
                        p = {'eq': s == 0, 'ne': s != 0, 'ult': s < 0, 'ule': s <= 0, 'ugt': s > 0, 'uge': s >= 0,
                             'slt': s < 0, 'sle': s <= 0, 'sgt': s > 0, 'sge': s >= 0}[pr]
                    else:
                        k = math.gcd(o1.gcd(), o2.gcd())
                        k = math.gcd(k, abs(sgn(o1.c, 64))); k = math.gcd(k, abs(sgn(o2.c, 64)))
                        x, y = (o1.div(k).val(), o2.div(k).val()) if k > 1 else (o1.val(), o2.val())
                        q = pr if pr in ('eq', 'ne') else 's' + pr[1:]
                        p = icmp(q, 64, x, y)
                else:
                    if pr == 'eq': p = False
                    elif pr == 'ne': p = True
                    elif r1 == 0 : p = pr in ('ult', 'ule')
                    elif r2 == 0 : p = pr in ('ugt', 'uge')
                    else: p = z3.Bool(self.fresh('ptrcmp'))
                res = bOr(res, bAnd(g, p))
        return simpb(res)

    # ------------------------------------------------------------ calls
    def cstring(self, p, mem):
        g, rid, off = p.alts[0]
        d = self.content(rid, mem).d; o = off.c; s = b''
        while True:
            e = d.get(o)
            if e is None or e[2] == 0: break
            s += bytes([e[2]]); o += 1
        return s.decode()
    def call(self, f, ins, env, mem, pc):
        callee = ins.x
        args_v = ins.a
        if callee.k == 'global' and callee.v.startswith('@llvm.'):
            return self.intrinsic(callee.v, f, ins, env, mem, pc)
        args = []
        for a in args_v:
            x = self.val(a, env, mem)
            if a.k == 'byval':
                t = a.x
                r = self._newregion('byval', 'cells'); r.size = size_of(t)
                mem[r.rid] = Cells()
                p = Ptr([(True, r.rid, Lin(0))])
                self.memcpy(p, x, r.size, mem, pc)
                x = p
            args.append(x)
        if callee.k == 'global':
            r = self.docall(callee.v, args, args_v, ins, pc, mem)
            return self.finish(ins, env, r)
        p = self.val(callee, env, mem)
        if len(p.alts) == 1 and p.alts[0][0] is True:
            g, rid, off = p.alts[0]
            reg = self.regions[rid]
            if reg.kind != 'func':
                self.add_ob('memory-safety: call through a pointer that is not a function in %s' % self.fname(), pc, False, 'mem')
                return ('pc', None)
            return self.finish(ins, env, self.docall(reg.func, args, args_v, ins, pc, mem))
        outs = []
        for g, rid, off in p.alts:
            g = simpb(g)
            if g is False: continue
            reg = self.regions[rid]
            npc = pc + ((g,) if g is not True else ())
            if reg.kind != 'func':
                self.add_ob('memory-safety: call through invalid function pointer in %s' % self.fname(), npc, False, 'mem'); continue
            if any(x.eq(bNot(g)) for x in pc if is_sym(g)): continue
            r = self.docall(reg.func, args, args_v, ins, npc, dict(mem))
            if r is not None:
                outs.append(Edge(r[0], r[1], None, {'ret': r[2]} if ins.res else {}))
        m = self.merge_edges(outs, {'ret': ins.ty})
        if m is None: return ('pc', None)
        return self.finish(ins, env, (m[0], m[1], m[2].get('ret')))
    def finish(self, ins, env, r):
        if r is None: return ('pc', None)
        pc, mem, ret = r
        if ins.res: env[ins.res] = ret
        return ('pc', pc, mem)
    def docall(self, name, args, args_v, ins, pc, mem):
        """-> (pc, mem, ret) or None when control cannot return"""
        base = name[1:].strip('"')
        if base.startswith('vc_'):
            import intr
            return intr.vc_call(self, base, args, args_v, ins, pc, mem)
        if base in ('memcpy', 'memmove'):
            mem = dict(mem); self.memcpy(args[0], args[1], args[2], mem, pc); return pc, mem, args[0]
        if base == 'memset':
            mem = dict(mem); self.memset(args[0], trunc(args[1], 32, 8), args[2], mem, pc); return pc, mem, args[0]
        if base.startswith('__cxa_') or base in ('abort',):
            if base == '__cxa_atexit': return pc, mem, 0
            if base == '__cxa_guard_acquire': return pc, mem, 1
            if base == '__cxa_guard_release': return pc, mem, None
            self.add_ob('undefined-behaviour: call of %s in %s' % (base, self.fname()), pc, False, 'ub'); return None
        dm = self.dem.get(name, name)
        st = self.stubs.get(base) 
        if st is None:
            for k, v in self.stubs.items():
                if dm.startswith(k + '(') or dm == k:
                    st = v; break
        if st is not None and name != '@' + st and ('@' + st) not in self.stack:
            self.contract_used[dm] = st
            return self.enter('@' + st, args, pc, mem)
        sp = self.specs.get(base)
        if sp is not None: return self.speccall(name, base, sp, args, ins, pc, mem)
        if name not in self.m.funcs or self.m.funcs[name].decl:
            raise Unsupported('call of external function ' + dm)
        return self.enter(name, args, pc, mem)
    def enter(self, name, args, pc, mem):
        r = self.call_function(name, args, pc, mem)
        if r is None: return None
        return r[0], r[1], r[2].get('ret')

    def speccall(self, name, base, maxd, args, ins, pc, mem):
        """pure recursive specification function: uninterpreted + unfolded up to maxd"""
        fn = self.m.getf(name)
        key = []; sorts = []
        tag = base
        for (t, _), a in zip(fn.params, args):
            if t.k == 'int':
                key.append(bv(zext(a, 1, 8), 8) if t.n == 1 else bv(a, t.n)); sorts.append(key[-1].sort())
            elif t.k in FW:
                key.append(self.fraw(a, FW[t.k])); sorts.append(key[-1].sort())
            elif t.k == 'ptr':
                if len(a.alts) != 1: raise Unsupported('spec function with multi-region pointer')
                g, rid, off = a.alts[0]
                c = mem.get(rid)
                tag += '@%d_%s' % (rid, self.cver(c))
                key.append(bv(off.val(), 64)); sorts.append(z3.BitVecSort(64))
            else: raise Unsupported('spec arg')
        rt = fn.rty
        if rt.k == 'int': rs = z3.BitVecSort(rt.n if rt.n > 1 else 8)
        else: rs = self.fsort(FW[rt.k])
        uf = self.uf(tag, *(sorts + [rs]))
        r = uf(*key)
        d = self.spec_depth.get(base, 0)
        kk = r.get_id()
        seen = self.__dict__.setdefault('spec_seen', {})
        if d < maxd and kk not in seen:
            seen[kk] = r
            self.spec_depth[base] = d + 1
            sdry = self.dry; self.dry += 1
            out = self.call_function(name, args, (), dict(mem))
            self.dry = sdry
            self.spec_depth[base] = d
            v = out[2]['ret']
            if rt.k == 'int': raw = bv(zext(v, 1, 8), 8) if rt.n == 1 else bv(v, rt.n)
            else: raw = self.fraw(v, FW[rt.k])
            self.ax.append(r == raw)
            self.functions.pop(name, None)
        if rt.k == 'int': ret = (r if rt.n > 1 else (z3.Extract(0, 0, r) == 1))
        else: ret = self.funraw(r, FW[rt.k])
        return pc, mem, ret
    def cver(self, c):
        k = self.__dict__.setdefault('cvers', {})
        if id(c) not in k: k[id(c)] = (len(k), c)
        return k[id(c)][0]

    def intrinsic(self, name, f, ins, env, mem, pc):
        n = name[6:]
        A = lambda i: self.val(ins.a[i], env, mem)
        if n.startswith(('lifetime', 'dbg', 'invariant', 'experimental.noalias', 'assume', 'donothing', 'prefetch', 'stackrestore')):
            if ins.res: env[ins.res] = NULL
            return
        if n.startswith(('ubsantrap', 'trap', 'debugtrap')):
            code = ''
            if ins.a: code = {'1': 'signed overflow', }.get(str(A(0)), 'kind %s' % A(0))
            self.add_ob('undefined-behaviour: %s in %s' % (ubname(A(0)) if ins.a else 'trap', self.fname()), pc, False, 'ub')
            return ('pc', None)
        if n.startswith(('memcpy', 'memmove')):
            self.memcpy(A(0), A(1), A(2), mem, pc); return
        if n.startswith('memset'):
            self.memset(A(0), A(1), A(2), mem, pc); return
        t = ins.ty
        if n.startswith(('sadd.with', 'ssub.with', 'smul.with', 'uadd.with', 'usub.with', 'umul.with')):
            w = t.e[0].n; a = A(0); b = A(1); op = n[1:4]
            s = n[0] == 's'
            r = iop(op, w, a, b)
            if not is_sym(a) and not is_sym(b):
                x, y = (sgn(a, w), sgn(b, w)) if s else (a, b)
                z = x + y if op == 'add' else x - y if op == 'sub' else x * y
                ov = z != (sgn(r, w) if s else r)
            else:
                ex = z3.SignExt if s else z3.ZeroExt
                k = w if op == 'mul' else 1
                x = ex(k, bv(a, w)); y = ex(k, bv(b, w))
                z = x + y if op == 'add' else x - y if op == 'sub' else x * y
                ov = simpb(z3.Not(z == ex(k, bv(r, w))))
            env[ins.res] = [r, ov]; return
        def lanes(fn):
            if t.k == 'vec':
                cols = [A(i) for i in range(len(ins.a))]
                env[ins.res] = [fn(t.e, *[c[j] if isinstance(c, list) else c for c in cols]) for j in range(t.n)]
            else: env[ins.res] = fn(t, *[A(i) for i in range(len(ins.a))])
        if n.startswith(('smin', 'smax', 'umin', 'umax')):
            pr = {'smin': 'slt', 'smax': 'sgt', 'umin': 'ult', 'umax': 'ugt'}[n[:4]]
            return lanes(lambda t, a, b: iIte(simpb(icmp(pr, t.n, a, b)), t.n, a, b))
        if n.startswith('abs.'):
            return lanes(lambda t, a, _: iIte(simpb(icmp('slt', t.n, a, 0)), t.n, iop('sub', t.n, 0, a), a))
        if n.startswith(('fshl', 'fshr')):
            w = t.n; a, b, c = A(0), A(1), A(2)
            cat = z3.Concat(bv(a, w), bv(b, w))
            sh = iop('urem', w, c, w)
            sh2 = z3.ZeroExt(w, bv(sh, w))
            if n.startswith('fshl'): r = z3.Extract(2 * w - 1, w, cat << sh2)
            else: r = z3.Extract(w - 1, 0, z3.LShR(cat, sh2))
            env[ins.res] = norm(z3.simplify(r)); return
        if n.startswith('usub.sat'):
            w = t.n; a, b = A(0), A(1)
            env[ins.res] = iIte(simpb(icmp('ult', w, a, b)), w, 0, iop('sub', w, a, b)); return
        if n.startswith('uadd.sat'):
            w = t.n; a, b = A(0), A(1); r = iop('add', w, a, b)
            env[ins.res] = iIte(simpb(icmp('ult', w, r, a)), w, mask(w), r); return
        if n.startswith('fabs'):
            return lanes(lambda t, a: self.fabs(FW[t.k], a))
        if n.startswith(('fmuladd', 'fma.')):
            if n.startswith('fma.') and not self.real(): 
                w = FW[t.k]; env[ins.res] = FV(w, fp=z3.fpFMA(RNE, A(0).fp, A(1).fp, A(2).fp), E=self); return
            w = FW[t.k]; env[ins.res] = self.farith('fadd', w, self.farith('fmul', w, A(0), A(1)), A(2)); return
        if n.startswith('copysign') and not self.real():
            w = FW[t.k]; a = bv(A(0).bv, w); b = bv(A(1).bv, w)
            s = z3.BitVecVal(1 << (w - 1), w)
            env[ins.res] = self.funraw(z3.simplify((a & ~s) | (b & s)), w); return
        if n.startswith(('minnum', 'maxnum')):
            w = FW[t.k]; a, b = A(0), A(1)
            c = self.fcmp('olt' if n.startswith('min') else 'ogt', w, a, b)
            r = self.fite(simpb(c), w, a, b)
            if not self.real():
                r = self.fite(simpb(self.fcmp('uno', w, b, b)), w, a, self.fite(simpb(self.fcmp('uno', w, a, a)), w, b, r))
            env[ins.res] = r; return
        if n.startswith('is.fpclass'):
            w = FW[ins.a[0].ty.k]; a = A(0); m = A(1)
            if self.real(): raise Unsupported('fpclass in real mode')
            x = a.fp; r = False
            tests = [(3, z3.fpIsNaN(x)), (4, z3.And(z3.fpIsInf(x), z3.fpIsNegative(x))), (8, z3.And(z3.fpIsNormal(x), z3.fpIsNegative(x))),
                     (16, z3.And(z3.fpIsSubnormal(x), z3.fpIsNegative(x))), (32, z3.And(z3.fpIsZero(x), z3.fpIsNegative(x))),
                     (64, z3.And(z3.fpIsZero(x), z3.fpIsPositive(x))), (128, z3.And(z3.fpIsSubnormal(x), z3.fpIsPositive(x))),
                     (256, z3.And(z3.fpIsNormal(x), z3.fpIsPositive(x))), (512, z3.And(z3.fpIsInf(x), z3.fpIsPositive(x)))]
            for b, c in tests:
                if m & b: r = bOr(r, c)
            env[ins.res] = r; return
        if n.startswith(('floor', 'ceil', 'trunc', 'rint', 'nearbyint', 'round', 'roundeven')) and not self.real():
            w = FW[t.k]
            rm = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'rint': RNE, 'nearbyint': RNE, 'roundeven': RNE, 'round': z3.RNA()}[n.split('.')[0]]
            env[ins.res] = FV(w, fp=z3.fpRoundToIntegral(rm, A(0).fp), E=self); return
        if n.startswith('sqrt') and not self.real():
            w = FW[t.k]; env[ins.res] = FV(w, fp=z3.fpSqrt(RNE, A(0).fp), E=self); return
        if n.startswith('expect'): env[ins.res] = A(0); return
        if n.startswith('ctpop'):
            w = t.n; a = bv(A(0), w)
            r = z3.BitVecVal(0, w)
            for i in range(w): r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, a))
            env[ins.res] = norm(z3.simplify(r)); return
        if n.startswith(('ctlz', 'cttz')):
            w = t.n; a = bv(A(0), w)
            r = z3.BitVecVal(w, w)
            rng = range(w) if n.startswith('ctlz') else range(w - 1, -1, -1)
            for i in rng:
                k = (w - 1 - i) if n.startswith('ctlz') else i
                r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(k, w), r)
            env[ins.res] = norm(z3.simplify(r)); return
        if n.startswith(('bswap',)):
            w = t.n; a = bv(A(0), w)
            env[ins.res] = norm(z3.simplify(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a) for i in range(w // 8)]))); return
        if n.startswith('bitreverse'):
            w = t.n; a = bv(A(0), w)
            env[ins.res] = norm(z3.simplify(z3.Concat(*[z3.Extract(i, i, a) for i in range(w)]))); return
        if n.startswith('fptosi.sat') or n.startswith('fptoui.sat'): raise Unsupported(n)
        if n.startswith('scmp') or n.startswith('ucmp'): raise Unsupported(n)
        raise Unsupported('intrinsic ' + n)

def ubname(c):
    return {0: 'add overflow', 10: 'array bounds', 1: 'builtin unreachable', 3: 'division overflow', 5: 'float cast overflow',
            12: 'mul overflow', 13: 'negate overflow', 20: 'shift out of range', 21: 'sub overflow', 22: 'type mismatch', 19: 'pointer overflow'}.get(c, 'trap %s' % c)
def bv8(v): return v
def out_edges(self, f, blk, bytgt, rest, mem, env, dflt):
    out = []
    tg = {}
    for lab, lst in bytgt.items():
        for r, q in lst: tg.setdefault(lab, []).append(r + (q,))
    tg.setdefault(dflt, []).append(rest)
    for lab, pcs in tg.items():
        for p in pcs:
            out.append((lab, self.mkedge(f, blk.name, lab, p, dict(mem), env)))
    return out
def rz(v):
    if isinstance(v, Fraction): return z3.RealVal(v)
    if isinstance(v, (int, float)): return z3.RealVal(Fraction(v))
    return v
def norm_r(t):
    if z3.is_rational_value(t): return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return t
def zIf(c, a, b):
    if isinstance(c, bool): return a if c else b
    if a.eq(b): return a
    return z3.If(c, a, b)
def same_prefix(a, b, n):
    return all(a[i].eq(b[i]) for i in range(n))
def complementary(a, b):
    return (z3.is_not(b) and b.arg(0).eq(a)) or (z3.is_not(a) and a.arg(0).eq(b))
