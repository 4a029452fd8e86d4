"""Value domain: integers (python int | z3 BV | bool), floats (bit precise, or real), pointers."""
import z3, struct, math
from fractions import Fraction
from ir import *

def mask(n): return (1 << n) - 1
def sgn(v, n): return v - (1 << n) if v >> (n - 1) else v

# ---------------------------------------------------------------- booleans
def is_sym(x): return isinstance(x, z3.ExprRef)
def bNot(a):
    if isinstance(a, bool): return not a
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def bAnd(a, b):
    if isinstance(a, bool): return b if a else False
    if isinstance(b, bool): return a if b else False
    if a.eq(b): return a
    return z3.And(a, b)
def bOr(a, b):
    if isinstance(a, bool): return True if a else b
    if isinstance(b, bool): return True if b else a
    if a.eq(b): return a
    return z3.Or(a, b)
def bXor(a, b):
    if isinstance(a, bool): return bNot(b) if a else b
    if isinstance(b, bool): return bNot(a) if b else a
    return z3.Xor(a, b)
def bIte(c, a, b):
    if isinstance(c, bool): return a if c else b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b: return a
        return c if a else bNot(c)
    if isinstance(a, bool): return bOr(c, b) if a else bAnd(bNot(c), b)
    if isinstance(b, bool): return bOr(bNot(c), a) if b else bAnd(c, a)
    if a.eq(b): return a
    return z3.If(c, a, b)
def zb(a): return z3.BoolVal(a) if isinstance(a, bool) else a
def simpb(a):
    if isinstance(a, bool): return a
    s = z3.simplify(a)
    if z3.is_true(s): return True
    if z3.is_false(s): return False
    return s

# ---------------------------------------------------------------- ints
def bv(a, n):
    if isinstance(a, bool): return z3.BitVecVal(int(a), n)
    if isinstance(a, int): return z3.BitVecVal(a, n)
    return a
def norm(t):
    """z3 numeral -> python"""
    if isinstance(t, z3.BitVecNumRef): return t.as_long()
    return t
def simpi(t):
    if is_sym(t): return norm(z3.simplify(t))
    return t

def const_leaves(t, out=None):
    """the constants a nested if-then-else chooses from, None if a leaf is not constant"""
    if out is None: out = set()
    if isinstance(t, z3.BitVecNumRef): out.add(t.as_long()); return out
    if t.decl().kind() != z3.Z3_OP_ITE or len(out) > 8: return None
    if const_leaves(t.arg(1), out) is None or const_leaves(t.arg(2), out) is None: return None
    return out
def iop(op, n, a, b):
    if n == 1: return bop1(op, a, b)
    ca, cb = not is_sym(a), not is_sym(b)
    M = mask(n)
    if ca and cb:
        if op == 'add': return (a + b) & M
        if op == 'sub': return (a - b) & M
        if op == 'mul': return (a * b) & M
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'shl': return (a << b) & M if b < n else 0
        if op == 'lshr': return a >> b if b < n else 0
        if op == 'ashr': return (sgn(a, n) >> min(b, n - 1)) & M
        if op == 'udiv': return a // b if b else M
        if op == 'urem': return a % b if b else a
        if op in ('sdiv', 'srem'):
            x, y = sgn(a, n), sgn(b, n)
            if y == 0: return bvc(op, n, a, b)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            return (q & M) if op == 'sdiv' else ((x - q * y) & M)
    if cb:
        if b == 0:
            if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
            if op in ('mul', 'and'): return 0
        if b == 1 and op in ('mul', 'udiv', 'sdiv'): return a
        if b == M and op == 'and': return a
        if b == M and op == 'or': return M
        if op in ('shl', 'lshr') and b >= n: return 0
    if ca:
        if a == 0:
            if op in ('add', 'or', 'xor'): return b
            if op in ('mul', 'and', 'shl', 'lshr', 'ashr'): return 0
        if a == 1 and op == 'mul': return b
        if a == M and op == 'and': return b
    if ca != cb and op in ('and', 'or', 'add', 'sub', 'lshr'):
        t = b if ca else a
        if t.decl().kind() == z3.Z3_OP_ITE:
            ls = const_leaves(t)
            if ls:
                vs = set(iop(op, n, a if ca else x, x if ca else b) for x in ls)
                if len(vs) == 1: return vs.pop()
    return bvc(op, n, a, b)

def bvc(op, n, a, b):
    a = bv(a, n); b = bv(b, n)
    if op == 'add': return a + b
    if op == 'sub':
        if a.eq(b): return 0
        return a - b
    if op == 'mul': return a * b
    if op == 'and': return a & b
    if op == 'or': return a | b
    if op == 'xor': return a ^ b
    if op == 'shl': return a << b
    if op == 'lshr': return z3.LShR(a, b)
    if op == 'ashr': return a >> b
    if op == 'udiv': return z3.UDiv(a, b)
    if op == 'urem': return z3.URem(a, b)
    if op == 'sdiv': return a / b
    if op == 'srem': return z3.SRem(a, b)
    raise Unsupported(op)

def tob(a):
    if isinstance(a, int) and not isinstance(a, bool): return bool(a & 1)
    return a
def bop1(op, a, b):
    a = tob(a); b = tob(b)
    if op in ('and', 'mul'): return bAnd(a, b)
    if op == 'or': return bOr(a, b)
    if op in ('xor', 'add', 'sub'): return bXor(a, b)
    raise Unsupported('i1 ' + op)

def icmp(pr, n, a, b):
    if n == 1:
        a = tob(a); b = tob(b)
        if pr == 'eq': return bNot(bXor(a, b))
        if pr == 'ne': return bXor(a, b)
        if pr == 'ult': return bAnd(bNot(a), b)
        if pr == 'ugt': return bAnd(a, bNot(b))
        if pr == 'ule': return bOr(bNot(a), b)
        if pr == 'uge': return bOr(a, bNot(b))
        raise Unsupported('i1 cmp ' + pr)
    if not is_sym(a) and not is_sym(b):
        if pr == 'eq': return a == b
        if pr == 'ne': return a != b
        if pr[0] == 's': a = sgn(a, n); b = sgn(b, n)
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pr[1:]]
    if pr == 'ult' and not is_sym(b) and b == 0: return False
    if pr == 'uge' and not is_sym(b) and b == 0: return True
    if is_sym(a) != is_sym(b):
        t = a if is_sym(a) else b
        if t.decl().kind() == z3.Z3_OP_ITE:
            ls = const_leaves(t)
            if ls:
                vs = set(icmp(pr, n, x if t is a else a, b if t is a else x) for x in ls)
                if len(vs) == 1: return vs.pop()
    a = bv(a, n); b = bv(b, n)
    if a.eq(b): return pr in ('eq', 'ule', 'uge', 'sle', 'sge')
    if pr == 'eq': return a == b
    if pr == 'ne': return z3.Not(a == b)
    if pr == 'ult': return z3.ULT(a, b)
    if pr == 'ule': return z3.ULE(a, b)
    if pr == 'ugt': return z3.UGT(a, b)
    if pr == 'uge': return z3.UGE(a, b)
    if pr == 'slt': return a < b
    if pr == 'sle': return a <= b
    if pr == 'sgt': return a > b
    if pr == 'sge': return a >= b

def iIte(c, n, a, b):
    if isinstance(c, bool): return a if c else b
    if n == 1: return bIte(c, tob(a), tob(b))
    if not is_sym(a) and not is_sym(b) and a == b: return a
    a = bv(a, n); b = bv(b, n)
    if a.eq(b): return norm(a)
    return z3.If(c, a, b)

def zext(a, n, m):
    if n == 1:
        a = tob(a)
        if isinstance(a, bool): return int(a)
        return z3.If(a, z3.BitVecVal(1, m), z3.BitVecVal(0, m))
    if not is_sym(a): return a
    return z3.ZeroExt(m - n, a)
def sext(a, n, m):
    if n == 1:
        a = tob(a)
        if isinstance(a, bool): return mask(m) if a else 0
        return z3.If(a, z3.BitVecVal(mask(m), m), z3.BitVecVal(0, m))
    if not is_sym(a): return sgn(a, n) & mask(m)
    return z3.SignExt(m - n, a)
def trunc(a, n, m):
    if m == 1:
        if not is_sym(a): return bool(a & 1)
        return simpb(z3.Extract(0, 0, a) == 1)
    if not is_sym(a): return a & mask(m)
    return norm(z3.simplify(z3.Extract(m - 1, 0, a)))

# ---------------------------------------------------------------- floats
FSORT = {32: z3.Float32(), 64: z3.Float64()}
RNE = z3.RNE(); RTZ = z3.RTZ()
FW = {'float': 32, 'double': 64, 'x86_fp80': 80}

def frac_to_bits(fr, w):
    """round-to-nearest-even of an exact Fraction, to the bit pattern of a w-bit IEEE float"""
    eb, mb = (8, 23) if w == 32 else (11, 52)
    if fr == 0: return 0
    s = 0
    if fr < 0: s = 1; fr = -fr
    bias = (1 << (eb - 1)) - 1
    e = fr.numerator.bit_length() - fr.denominator.bit_length()
    if Fraction(2) ** e > fr: e -= 1
    elif Fraction(2) ** (e + 1) <= fr: e += 1
    if e < 1 - bias: e = 1 - bias
    q = fr / Fraction(2) ** (e - mb)
    fl = q.numerator // q.denominator
    rem = q - fl
    if rem > Fraction(1, 2) or (rem == Fraction(1, 2) and fl & 1): fl += 1
    if fl >> (mb + 1): fl >>= 1; e += 1
    if e > bias: return (s << (w - 1)) | (((1 << eb) - 1) << mb)
    if fl >> mb == 0: ex = 0
    else: ex = e + bias; fl &= mask(mb)
    return (s << (w - 1)) | (ex << mb) | fl

def bits_class(b, w):
    eb, mb = (8, 23) if w == 32 else (11, 52)
    ex = (b >> mb) & mask(eb)
    if ex == mask(eb):
        if b & mask(mb): return 'nan'
        return '-inf' if b >> (w - 1) else 'inf'
    return 'fin'
def bits_to_frac(b, w):
    eb, mb = (8, 23) if w == 32 else (11, 52)
    bias = (1 << (eb - 1)) - 1
    ex = (b >> mb) & mask(eb); m = b & mask(mb)
    if ex == 0: v = Fraction(m) * Fraction(2) ** (1 - bias - mb)
    else: v = Fraction(m | (1 << mb)) * Fraction(2) ** (ex - bias - mb)
    return -v if b >> (w - 1) else v
def bits_to_py(b, w):
    return struct.unpack('<f' if w == 32 else '<d', struct.pack('<I' if w == 32 else '<Q', b))[0]
def py_to_bits(d, w):
    if w == 64: return struct.unpack('<Q', struct.pack('<d', d))[0]
    if math.isnan(d): return 0x7fc00000
    if math.isinf(d): return 0x7f800000 if d > 0 else 0xff800000
    if d == 0: return 0x80000000 if math.copysign(1, d) < 0 else 0
    return frac_to_bits(Fraction(d), 32)

class FV:
    """bit-precise float value"""
    __slots__ = ('w', 'bits', '_fp', '_bv', 'E')
    def __init__(self, w, bits=None, fp=None, bv=None, E=None):
        self.w = w; self.bits = bits; self._fp = fp; self._bv = bv; self.E = E
    @property
    def fp(self):
        if self._fp is None:
            if self.bits is not None:
                c = bits_class(self.bits, self.w)
                if c == 'nan': self._fp = z3.fpNaN(FSORT[self.w])
                else: self._fp = z3.simplify(z3.fpBVToFP(z3.BitVecVal(self.bits, self.w), FSORT[self.w]))
            else: self._fp = z3.fpBVToFP(self._bv, FSORT[self.w])
        return self._fp
    @property
    def bv(self):
        if self._bv is None:
            if self.bits is not None: return self.bits
            self._bv = self.E.fp_bits(self._fp, self.w)
        return self._bv
    def __repr__(self): return 'FV(%s)' % (self.bits if self.bits is not None else (self._fp if self._fp is not None else self._bv))

# ---------------------------------------------------------------- linear forms and pointers
class Lin:
    __slots__ = ('c', 't', '_bv')
    def __init__(self, c=0, t=None):
        self.c = c & mask(64); self.t = t or {}; self._bv = None
    @staticmethod
    def of(x):
        if isinstance(x, Lin): return x
        if not is_sym(x): return Lin(int(x))
        x = z3.simplify(x)
        l = Lin(); l.t = {}
        l._acc(x, 1)
        l.t = {k: v for k, v in l.t.items() if v[1]}
        return l
    def _acc(self, x, k):
        if isinstance(x, z3.BitVecNumRef):
            self.c = (self.c + k * x.as_long()) & mask(64); return
        d = x.decl().kind()
        if d == z3.Z3_OP_BADD:
            for a in x.children(): self._acc(a, k)
            return
        if d == z3.Z3_OP_BMUL and x.num_args() == 2 and isinstance(x.arg(0), z3.BitVecNumRef):
            self._acc(x.arg(1), (k * x.arg(0).as_long()) & mask(64)); return
        if d == z3.Z3_OP_BMUL and x.num_args() > 2 and isinstance(x.arg(0), z3.BitVecNumRef):
            r = x.arg(1)
            for q in range(2, x.num_args()): r = r * x.arg(q)
            self._acc(r, (k * x.arg(0).as_long()) & mask(64)); return
        if d == z3.Z3_OP_BNEG:
            self._acc(x.arg(0), (-k) & mask(64)); return
        if d == z3.Z3_OP_BSUB:
            self._acc(x.arg(0), k); self._acc(x.arg(1), (-k) & mask(64)); return
        # shl by constant shows as concat(extract, 0...)
        if d == z3.Z3_OP_CONCAT and isinstance(x.arg(x.num_args() - 1), z3.BitVecNumRef) and x.arg(x.num_args() - 1).as_long() == 0 and x.num_args() == 2:
            z = x.arg(1).size(); e = x.arg(0)
            if e.decl().kind() == z3.Z3_OP_EXTRACT and e.params()[1] == 0 and e.arg(0).size() == 64:
                self._acc(e.arg(0), (k << z) & mask(64)); return
        i = x.get_id()
        o = self.t.get(i)
        self.t[i] = (x, ((o[1] if o else 0) + k) & mask(64))
    def add(self, o):
        r = Lin(self.c + o.c, dict(self.t))
        for k, (x, c) in o.t.items():
            p = r.t.get(k)
            nc = ((p[1] if p else 0) + c) & mask(64)
            if nc: r.t[k] = (x, nc)
            elif p: del r.t[k]
        return r
    def scale(self, k):
        k &= mask(64)
        r = Lin(self.c * k, {})
        for i, (x, c) in self.t.items():
            nc = (c * k) & mask(64)
            if nc: r.t[i] = (x, nc)
        return r
    def sub(self, o): return self.add(o.scale(-1))
    def const(self): return not self.t
    def gcd(self):
        g = 0
        for x, c in self.t.values():
            c = sgn(c, 64); g = math.gcd(g, abs(c))
        return g
    def divisible(self, d):
        return sgn(self.c, 64) % d == 0 and self.gcd() % d == 0
    def div(self, d):
        r = Lin(sgn(self.c, 64) // d, {})
        for i, (x, c) in self.t.items():
            r.t[i] = (x, (sgn(c, 64) // d) & mask(64))
        return r
    def val(self):
        """python int or BV64"""
        if not self.t: return self.c
        if self._bv is None:
            r = None
            for x, c in self.t.values():
                if c == 1: y = x
                else: y = x * z3.BitVecVal(c, 64)
                r = y if r is None else r + y
            if self.c: r = r + z3.BitVecVal(self.c, 64)
            self._bv = r
        return self._bv
    def same(self, o):
        return self.c == o.c and len(self.t) == len(o.t) and all(k in o.t and o.t[k][1] == v[1] for k, v in self.t.items())
    def __repr__(self): return 'Lin(%s)' % self.val()

def lin_ite(g, a, b):
    if a.same(b): return a
    d = a.gcd(); d = math.gcd(d, b.gcd())
    d = math.gcd(d, abs(sgn(a.c, 64))); d = math.gcd(d, abs(sgn(b.c, 64)))
    if d == 0: d = 1
    # keep a power of two / exact divisor
    x = a.div(d).val(); y = b.div(d).val()
    t = z3.If(g, bv(x, 64), bv(y, 64))
    l = Lin(0, {t.get_id(): (t, d & mask(64))})
    return l

class Ptr:
    __slots__ = ('alts',)   # list of (guard, rid, Lin)
    def __init__(self, alts): self.alts = alts
    def __repr__(self): return 'Ptr(%s)' % ','.join('%s+%s' % (r, o.val()) for g, r, o in self.alts)
    def offset(self, l):
        return Ptr([(g, r, o.add(l)) for g, r, o in self.alts])
NULL = Ptr([(True, 0, Lin(0))])

def ptr_ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if a is b: return a
    alts = []
    used = set()
    bd = {}
    for i, (g, r, o) in enumerate(b.alts): bd.setdefault(r, []).append(i)
    nc = bNot(c)
    for g, r, o in a.alts:
        if len(bd.get(r, [])) == 1 and len([1 for x in a.alts if x[1] == r]) == 1:
            j = bd[r][0]; used.add(j); g2, _, o2 = b.alts[j]
            if g is True and g2 is True: ng = True
            else: ng = bIte(c, g, g2)
            alts.append((ng, r, lin_ite(c, o, o2)))
        else: alts.append((bAnd(c, g), r, o))
    for j, (g, r, o) in enumerate(b.alts):
        if j not in used: alts.append((bAnd(nc, g), r, o))
    return Ptr(alts)
