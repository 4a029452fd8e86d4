"""Parser for (a subset of) LLVM 18 textual IR: what clang emits for this codebase."""
import re
from fractions import Fraction
import struct

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'e', 'packed', 'name', '_sz')
    def __init__(self, k, n=0, e=None, packed=False, name=None):
        self.k = k; self.n = n; self.e = e; self.packed = packed; self.name = name; self._sz = None
    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.n
        if self.k == 'arr': return '[%d x %r]' % (self.n, self.e)
        if self.k == 'vec': return '<%d x %r>' % (self.n, self.e)
        if self.k == 'struct': return self.name or '{%s}' % ','.join(map(repr, self.e or []))
        return self.k

VOID = Ty('void'); PTR = Ty('ptr'); F32 = Ty('float'); F64 = Ty('double'); F80 = Ty('x86_fp80')
LABEL = Ty('label'); META = Ty('metadata')
_ints = {}
def INT(n):
    if n not in _ints: _ints[n] = Ty('int', n)
    return _ints[n]

def align_of(t):
    k = t.k
    if k == 'int':
        b = (t.n + 7) // 8
        a = 1
        while a < b: a *= 2
        return min(a, 16)
    if k == 'ptr' or k == 'double': return 8
    if k == 'float': return 4
    if k == 'x86_fp80': return 16
    if k == 'arr': return align_of(t.e)
    if k == 'vec': return size_of(t)
    if k == 'struct':
        if t.packed or not t.e: return 1
        return max(align_of(x) for x in t.e)
    raise Unsupported('align of %r' % t)

def size_of(t):
    if t._sz is not None: return t._sz
    k = t.k
    if k == 'int':
        b = (t.n + 7) // 8
        a = align_of(t)
        s = (b + a - 1) // a * a
    elif k == 'ptr' or k == 'double': s = 8
    elif k == 'float': s = 4
    elif k == 'x86_fp80': s = 16
    elif k == 'arr': s = t.n * size_of(t.e)
    elif k == 'vec': s = t.n * size_of(t.e)
    elif k == 'struct':
        offs = struct_offsets(t)
        if not t.e: s = 0
        else:
            s = offs[-1] + size_of(t.e[-1])
            a = align_of(t)
            s = (s + a - 1) // a * a
    else:
        raise Unsupported('size of %r' % t)
    t._sz = s
    return s

def struct_offsets(t):
    o = 0; r = []
    for x in t.e:
        if not t.packed:
            a = align_of(x); o = (o + a - 1) // a * a
        r.append(o); o += size_of(x)
    return r

# ---------------------------------------------------------------- tokens
TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<meta>![a-zA-Z0-9_.]*)
 |(?P<attr>\#[0-9]+)
 |(?P<fhex>0x[KLMHR]?[0-9A-Fa-f]+)
 |(?P<flt>[-+]?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?)
 |(?P<int>-?[0-9]+)
 |(?P<word>[a-zA-Z_$.][a-zA-Z0-9_.$]*)
 |(?P<ell>\.\.\.)
 |(?P<p>[][(){}<>,=*:|])
)''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '': break
            raise Unsupported('token: ' + s[i:i+40])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out

class Val:
    __slots__ = ('k', 'ty', 'v', 'x')
    # k: local, global, const(int), fconst, null, undef, zero, agg, cexpr, str
    def __init__(self, k, ty, v=None, x=None):
        self.k = k; self.ty = ty; self.v = v; self.x = x
    def __repr__(self): return '%s:%r' % (self.k, self.v)

class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'txt')
    def __init__(self, op, res=None, ty=None, a=None, x=None, txt=''):
        self.op = op; self.res = res; self.ty = ty; self.a = a or []; self.x = x; self.txt = txt

class Block:
    __slots__ = ('name', 'phis', 'insts', 'term')
    def __init__(self, name):
        self.name = name; self.phis = []; self.insts = []; self.term = None

class Func:
    def __init__(self, name, rty, params):
        self.name = name; self.rty = rty; self.params = params
        self.blocks = {}; self.order = []; self.decl = True
        self.byval = {}
        self.sret = None

class Global:
    def __init__(self, name, ty, init, const):
        self.name = name; self.ty = ty; self.init = init; self.const = const

ATTRW = set('''noundef nonnull signext zeroext inreg nocapture noalias readonly readnone writeonly returned
 immarg noinline nounwind tail musttail notail dso_local internal private external linkonce_odr weak_odr weak linkonce
 local_unnamed_addr unnamed_addr hidden protected default available_externally common fastcc ccc coldcc constant
 nofree swiftself nest noreturn inbounds nuw nsw exact fast nnan ninf nsz arcp contract afn reassoc volatile
 disjoint nneg dead_on_unwind writable allocptr allocalign nosync comdat thread_local appending extern_weak noext inrange'''.split())
ATTRP = set('dereferenceable dereferenceable_or_null align captures initializes range nofpclass memory allocsize elementtype'.split())

class P:
    def __init__(self, mod, toks):
        self.m = mod; self.t = toks; self.i = 0
    def pk(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else ('eof', '')
    def nx(self):
        r = self.pk(); self.i += 1; return r
    def isp(self, c): return self.pk()[1] == c and self.pk()[0] in ('p', 'word', 'ell')
    def eat(self, c):
        if self.isp(c): self.i += 1; return True
        return False
    def need(self, c):
        k, v = self.nx()
        if v != c: raise Unsupported('expected %s got %s in %s' % (c, v, ' '.join(x[1] for x in self.t)))
    def skip_attrs(self):
        info = {}
        while True:
            k, v = self.pk()
            if k == 'attr': self.i += 1; continue
            if k == 'str' : self.i += 1; 
            elif k == 'word' and v in ATTRW:
                self.i += 1
                if v == 'comdat' and self.isp('('): self.skip_par()
                if v == 'thread_local' and self.isp('('): self.skip_par()
            elif k == 'word' and v in ATTRP:
                self.i += 1
                if self.isp('('): self.skip_par()
                elif v == 'align': self.i += 1
            elif k == 'word' and v in ('byval', 'sret', 'byref', 'inalloca', 'preallocated'):
                self.i += 1
                self.need('('); t = self.ty(); self.need(')')
                info[v] = t
            else:
                return info
            if k == 'str' and self.eat('='): self.i += 1
    def skip_par(self):
        self.need('('); d = 1
        while d:
            v = self.nx()[1]
            if v == '(': d += 1
            elif v == ')': d -= 1
            elif v == '': raise Unsupported('paren')
    def ty(self):
        t = self.ty1()
        while self.isp('('):        # function type
            d = 0
            self.nx()
            depth = 1
            while depth:
                v = self.nx()[1]
                if v == '(': depth += 1
                elif v == ')': depth -= 1
            t = Ty('func', e=t)
        return t
    def ty1(self):
        k, v = self.nx()
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit(): return INT(int(v[1:]))
            if v == 'ptr':
                if self.pk()[1] == 'addrspace': self.i += 1; self.skip_par()
                return PTR
            if v == 'float': return F32
            if v == 'double': return F64
            if v == 'x86_fp80': return F80
            if v == 'void': return VOID
            if v == 'label': return LABEL
            if v == 'metadata': return META
            if v == 'opaque': return Ty('opaque')
            raise Unsupported('type ' + v)
        if k == 'loc':
            nm = v
            t = self.m.types.get(nm)
            if t is None:
                t = Ty('struct', e=None, name=nm); self.m.types[nm] = t
            return t
        if v == '[':
            n = int(self.nx()[1]); self.need('x'); e = self.ty(); self.need(']')
            return Ty('arr', n, e)
        if v == '<':
            if self.isp('{'):
                t = self.structbody(True); self.need('>'); return t
            n = int(self.nx()[1]); self.need('x'); e = self.ty(); self.need('>')
            return Ty('vec', n, e)
        if v == '{':
            self.i -= 1
            return self.structbody(False)
        raise Unsupported('type %s' % v)
    def structbody(self, packed):
        self.need('{'); e = []
        if not self.isp('}'):
            while True:
                e.append(self.ty())
                if not self.eat(','): break
        self.need('}')
        return Ty('struct', e=e, packed=packed)
    def val(self, ty):
        k, v = self.nx()
        if k == 'loc': return Val('local', ty, v)
        if k == 'glob': return Val('global', ty, v)
        if k == 'int':
            if ty.k in ('float', 'double'): return Val('fconst', ty, Fraction(int(v)))
            return Val('const', ty, int(v) & ((1 << ty.n) - 1))
        if k == 'flt':
            return Val('fconst', ty, fl_bits_const(ty, float(v)))
        if k == 'fhex':
            return Val('fconst', ty, fl_hex(ty, v))
        if k == 'str':
            return Val('str', ty, cstr(v))
        if k == 'word':
            if v == 'true': return Val('const', ty, 1)
            if v == 'false': return Val('const', ty, 0)
            if v == 'null': return Val('null', ty)
            if v in ('undef', 'poison'): return Val('undef', ty)
            if v == 'zeroinitializer': return Val('zero', ty)
            if v == 'none': return Val('zero', ty)
            if v == 'splat':
                self.need('('); t = self.ty(); x = self.val(t); self.need(')')
                return Val('agg', ty, [x] * ty.n)
            if v in ('getelementptr',):
                self.skip_attrs()
                self.need('('); bt = self.ty(); self.need(',')
                ops = []
                while True:
                    self.skip_attrs(); t = self.ty(); ops.append(self.val(t))
                    if not self.eat(','): break
                self.need(')')
                return Val('cexpr', ty, 'gep', (bt, ops))
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.need('('); t = self.ty(); x = self.val(t); self.need('to'); t2 = self.ty(); self.need(')')
                return Val('cexpr', t2, v, x)
            if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                self.skip_attrs(); self.need('('); t = self.ty(); a = self.val(t); self.need(','); t = self.ty(); b = self.val(t); self.need(')')
                return Val('cexpr', ty, v, (a, b))
            if v in ('icmp',):
                pr = self.nx()[1]; self.need('('); t = self.ty(); a = self.val(t); self.need(','); t = self.ty(); b = self.val(t); self.need(')')
                return Val('cexpr', ty, 'icmp', (pr, a, b))
            raise Unsupported('value ' + v)
        if v in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[v]
            packed = False
            if v == '<' and self.isp('{'):
                self.nx(); close = '}'; packed = True
            e = []
            if not self.isp(close):
                while True:
                    t = self.ty(); e.append(self.val(t))
                    if not self.eat(','): break
            self.need(close)
            if packed: self.need('>')
            return Val('agg', ty, e)
        if k == 'meta': 
            return Val('undef', ty)
        raise Unsupported('value %s' % v)
    def tv(self):
        info = self.skip_attrs()
        t = self.ty()
        self.skip_attrs()
        return self.val(t)

def cstr(v):
    s = v[2:-1] if v[0] == 'c' else v[1:-1]
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return bytes(out)

def fl_bits_const(ty, d):
    return d
def fl_hex(ty, v):
    if v.startswith('0xK'):
        h = int(v[3:], 16)
        se = h >> 64; man = h & ((1 << 64) - 1)
        s = -1 if se >> 15 else 1; e = se & 0x7fff
        if e == 0x7fff:
            return float('nan') if (man << 1) & ((1 << 64) - 1) else s * float('inf')
        if man == 0: return Fraction(0)
        return Fraction(s * man) * Fraction(2) ** (e - 16383 - 63)
    if v[2] in 'LMHR': raise Unsupported('fp const ' + v)
    return struct.unpack('>d', struct.pack('>Q', int(v, 16)))[0]

BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CAST = set('trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast'.split())

class Module:
    def __init__(self):
        self.types = {}; self.globals = {}; self.funcs = {}; self.ctors = []; self.aliases = {}
    @staticmethod
    def parse(text):
        m = Module()
        lines = text.split('\n')
        # named types first
        for ln in lines:
            if ln.startswith('%') and ' = type ' in ln:
                nm, body = ln.split(' = type ', 1)
                nm = nm.strip()
                p = P(m, tokenize(body))
                t = p.ty()
                if nm in m.types:
                    o = m.types[nm]
                    o.k = t.k; o.n = t.n; o.e = t.e; o.packed = t.packed
                else:
                    if t.k == 'struct': t.name = nm
                    m.types[nm] = t
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('@'):
                m.parse_global(ln)
            elif ln.startswith('declare'):
                m.parse_header(ln)
            elif ln.startswith('define'):
                f = m.parse_header(ln)
                f.decl = False
                body = []
                i += 1
                while lines[i] != '}':
                    body.append(lines[i]); i += 1
                f._body = body
                f._parsed = False
            i += 1
        return m
    def getf(self, name):
        f = self.funcs[name]
        if not f.decl and not f._parsed:
            self.parse_body(f, f._body); f._parsed = True; f._body = None
        return f
    def parse_global(self, ln):
        toks = tokenize(ln)
        p = P(self, toks)
        name = p.nx()[1]; p.need('=')
        const = False
        ext = False
        while True:
            k, v = p.pk()
            if k == 'word' and v == 'alias':
                p.nx(); p.ty(); p.need(',')
                t = p.ty(); self.aliases[name] = p.val(t); return
            if k == 'word' and (v in ATTRW or v == 'global' or v == 'externally_initialized'):
                if v == 'external': ext = True
                p.nx()
                if v == 'constant': const = True; break
                if v == 'global': break
                if v in ('thread_local',) and p.isp('('): p.skip_par()
            else:
                raise Unsupported('global ' + ln[:80])
        t = p.ty()
        init = None
        if p.pk()[0] != 'eof' and not p.isp(','):
            try: init = p.val(t)
            except Unsupported:
                init = None
        if name == '@llvm.global_ctors':
            if init is not None and init.k == 'agg':
                self.ctors = [(e.v[0].v, e.v[1].v) for e in init.v]
            return
        self.globals[name] = Global(name, t, init, const)
    def parse_header(self, ln):
        toks = tokenize(ln)
        p = P(self, toks); p.nx()
        p.skip_attrs()
        rty = p.ty1(); 
        p.skip_attrs()
        name = p.nx()[1]
        f = Func(name, rty, [])
        p.need('(')
        cnt = 0
        if not p.isp(')'):
            while True:
                if p.eat('...'): f.vararg = True
                else:
                    t = p.ty(); info = p.skip_attrs()
                    if p.pk()[0] == 'loc': pn = p.nx()[1]
                    else: pn = '%%%d' % cnt
                    if 'byval' in info: f.byval[len(f.params)] = info['byval']
                    f.params.append((t, pn)); cnt += 1
                if not p.eat(','): break
        p.need(')')
        self.funcs[name] = f
        return f
    def parse_body(self, f, body):
        cur = None
        # implicit entry label
        joined = []
        j = 0
        while j < len(body):
            ln = body[j]
            s = ln.strip()
            if not s or s.startswith(';'): j += 1; continue
            if s.startswith('switch') and s.endswith('['):
                while not body[j].strip().startswith(']'):
                    j += 1; s += ' ' + body[j].strip()
            joined.append((ln, s)); j += 1
        nparam_nums = len([1 for t, pn in f.params])
        for ln, s in joined:
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if m and not ln.startswith(' '):
                nm = m.group(1).strip('"')
                cur = Block('%' + (nm if not m.group(1).startswith('"') else m.group(1)))
                f.blocks[cur.name] = cur; f.order.append(cur.name); continue
            if cur is None:
                # numbered entry: count = number of unnamed params
                num = 0
                for t, pn in f.params:
                    if re.match(r'^%\d+$', pn): num += 1
                cur = Block('%%%d' % num); f.blocks[cur.name] = cur; f.order.append(cur.name)
                f._entry_numbered = True
            ins = self.parse_inst(s)
            if ins is None: continue
            if ins.op == 'phi': cur.phis.append(ins)
            elif ins.op in ('br', 'condbr', 'switch', 'ret', 'unreachable'): cur.term = ins
            else: cur.insts.append(ins)
        f.entry = f.order[0]
        # the implicit entry label may be referenced by phis as something else: find unknown labels
        known = set(f.blocks)
        for b in f.blocks.values():
            for ph in b.phis:
                for v, lab in ph.x:
                    if lab not in known:
                        # must be the entry
                        e = f.blocks.pop(f.entry); e.name = lab; 
                        f.blocks[lab] = e; f.order[0] = lab; f.entry = lab; known.add(lab)
    def parse_inst(self, s):
        toks = tokenize(s)
        p = P(self, toks)
        res = None
        if p.pk()[0] == 'loc' and p.pk(1)[1] == '=':
            res = p.nx()[1]; p.nx()
        k, op = p.nx()
        while op in ('tail', 'musttail', 'notail'):
            k, op = p.nx()
        if op in BIN:
            fl = set()
            while p.pk()[0] == 'word' and p.pk()[1] in ATTRW: fl.add(p.nx()[1])
            t = p.ty(); a = p.val(t); p.need(','); b = p.val(t)
            return Inst(op, res, t, [a, b], fl, s)
        if op == 'fneg':
            p.skip_attrs(); t = p.ty(); a = p.val(t)
            return Inst(op, res, t, [a], None, s)
        if op in ('icmp', 'fcmp'):
            while p.pk()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'samesign'): p.nx()
            pr = p.nx()[1]; t = p.ty(); a = p.val(t); p.need(','); b = p.val(t)
            return Inst(op, res, t, [a, b], pr, s)
        if op in CAST:
            p.skip_attrs()
            t = p.ty(); a = p.val(t); p.need('to'); t2 = p.ty()
            return Inst(op, res, t2, [a], t, s)
        if op == 'load':
            p.eat('atomic'); p.eat('volatile')
            t = p.ty(); p.need(','); a = p.tv()
            return Inst(op, res, t, [a], None, s)
        if op == 'store':
            p.eat('atomic'); p.eat('volatile')
            v = p.tv(); p.need(','); a = p.tv()
            return Inst(op, None, v.ty, [v, a], None, s)
        if op == 'alloca':
            p.eat('inalloca')
            t = p.ty(); cnt = None
            if p.eat(','):
                if p.pk()[1] != 'align': cnt = p.tv()
            return Inst(op, res, t, [cnt] if cnt else [], None, s)
        if op == 'getelementptr':
            while p.pk()[1] in ('inbounds', 'nuw', 'nusw'): p.nx()
            bt = p.ty(); p.need(',')
            ops = []
            while True:
                ops.append(p.tv())
                if not p.eat(','): break
            return Inst('gep', res, PTR, ops, bt, s)
        if op == 'phi':
            p.skip_attrs(); t = p.ty(); inc = []
            while True:
                p.need('['); v = p.val(t); p.need(','); lab = p.nx()[1]; p.need(']')
                inc.append((v, lab))
                if not p.eat(','): break
                if p.pk()[0] == 'meta': break
            return Inst('phi', res, t, [], inc, s)
        if op == 'select':
            p.skip_attrs()
            c = p.tv(); p.need(','); a = p.tv(); p.need(','); b = p.tv()
            return Inst(op, res, a.ty, [c, a, b], None, s)
        if op == 'br':
            if p.pk()[1] == 'label':
                p.nx(); return Inst('br', None, None, [], [p.nx()[1]], s)
            c = p.tv(); p.need(','); p.need('label'); l1 = p.nx()[1]; p.need(','); p.need('label'); l2 = p.nx()[1]
            return Inst('condbr', None, None, [c], [l1, l2], s)
        if op == 'switch':
            v = p.tv(); p.need(','); p.need('label'); d = p.nx()[1]; p.need('[')
            cs = []
            while not p.isp(']'):
                c = p.tv(); p.need(','); p.need('label'); cs.append((c, p.nx()[1]))
            return Inst('switch', None, None, [v], (d, cs), s)
        if op == 'ret':
            if p.pk()[1] == 'void': return Inst('ret', None, VOID, [], None, s)
            v = p.tv(); return Inst('ret', None, v.ty, [v], None, s)
        if op == 'unreachable': return Inst('unreachable', txt=s)
        if op == 'call':
            p.skip_attrs()
            rt = p.ty()
            if rt.k == 'func': rt = rt.e
            k, v = p.pk()
            if k == 'word' and v == 'asm': raise Unsupported('inline asm')
            callee = p.val(PTR)
            p.need('(')
            args = []
            if not p.isp(')'):
                while True:
                    t = p.ty()
                    info = p.skip_attrs()
                    if t.k == 'metadata':
                        # metadata args: ignore
                        d = 0
                        while not ((p.isp(',') or p.isp(')')) and d == 0):
                            if p.isp('('): d += 1
                            if p.isp(')'): d -= 1
                            p.nx()
                        args.append(Val('undef', META))
                    else:
                        a = p.val(t)
                        if 'byval' in info: a = Val('byval', t, a, info['byval'])
                        args.append(a)
                    if not p.eat(','): break
            p.need(')')
            return Inst('call', res, rt, args, callee, s)
        if op == 'extractvalue':
            a = p.tv(); idx = []
            while p.eat(','):
                if p.pk()[0] == 'meta': break
                idx.append(int(p.nx()[1]))
            return Inst(op, res, None, [a], idx, s)
        if op == 'insertvalue':
            a = p.tv(); p.need(','); b = p.tv(); idx = []
            while p.eat(','):
                if p.pk()[0] == 'meta': break
                idx.append(int(p.nx()[1]))
            return Inst(op, res, a.ty, [a, b], idx, s)
        if op == 'extractelement':
            a = p.tv(); p.need(','); b = p.tv(); return Inst(op, res, a.ty.e, [a, b], None, s)
        if op == 'insertelement':
            a = p.tv(); p.need(','); b = p.tv(); p.need(','); c = p.tv(); return Inst(op, res, a.ty, [a, b, c], None, s)
        if op == 'shufflevector':
            a = p.tv(); p.need(','); b = p.tv(); p.need(','); c = p.tv(); return Inst(op, res, Ty('vec', c.ty.n, a.ty.e), [a, b, c], None, s)
        if op == 'freeze':
            a = p.tv(); return Inst(op, res, a.ty, [a], None, s)
        return Inst('unsupported', res, None, [], op, s)
