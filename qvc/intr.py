"""vc_* specification intrinsics"""
import z3
from vals import *
from ir import *
import execu as X

def vc_call(E, name, args, args_v, ins, pc, mem):
    def nm():
        s = E.cstring(args[0], mem); k = E.cnt.get('in:' + s, 0); E.cnt['in:' + s] = k + 1
        return '%s#%d' % (s, k)
    if name in ('vc_u8', 'vc_u16', 'vc_u32', 'vc_u64'):
        w = int(name[4:]); s = nm()
        t = z3.BitVec(s, w); E.inputs.append((s, 'i', t, w)); return pc, mem, t
    if name in ('vc_f32', 'vc_f32in'):
        s = nm()
        if E.real(): t = z3.Real(s); v = t
        else: t = z3.BitVec(s, 32); v = FV(32, bv=t)
        E.inputs.append((s, 'f', t, 32))
        if name == 'vc_f32in':
            c = bAnd(E.fcmp('oge', 32, v, args[1]), E.fcmp('ole', 32, v, args[2]))
            pc = pc + (X.zb(simpb(c)),) if simpb(c) is not True else pc
        return pc, mem, v
    if name == 'vc_size':
        s = nm(); t = z3.BitVec(s, 64); E.inputs.append((s, 'i', t, 64)); E.sizehints.append(t)
        lo, hi = args[1], args[2]
        c1 = zb(icmp('uge', 64, t, lo)); c2 = zb(icmp('ule', 64, t, hi))
        if not is_sym(lo) and not is_sym(hi) and lo == hi: return pc, mem, lo
        return pc + tuple(x for x in (c1, c2) if not z3.is_true(x)), mem, t
    if name == 'vc_index':
        s = nm(); t = z3.BitVec(s, 64); E.inputs.append((s, 'i', t, 64))
        return pc + (zb(icmp('ult', 64, t, args[1])),), mem, t
    if name == 'vc_array':
        s = nm(); n, es, kind = args[1], args[2], args[3]
        if is_sym(es) or is_sym(kind): raise Unsupported('vc_array kind')
        ety = F32 if kind == 1 else INT(8 * es)
        if not is_sym(n) and n <= 512:
            r = E._newregion(s, 'cells'); r.size = n * es; r.tag = 'in'
            d = {}
            for i in range(n):
                k = '%s[%d]' % (s, i)
                if kind == 1:
                    v = E.ffresh(k, 32); d[i * es] = (es, 'f', v)
                    E.inputs.append((k, 'f', v if E.real() else v.bv, 32))
                    pc = rng(E, pc, v, args)
                else:
                    v = z3.BitVec(k, 8 * es); d[i * es] = (es, 'i', v)
                    E.inputs.append((k, 'i', v, 8 * es))
            mem = dict(mem); mem[r.rid] = X.Cells(d)
        else:
            r = E._newregion(s, 'array'); r.es = es; r.n = n; r.ety = ety
            base = X.AB('arr_' + s, E.fsort(32) if kind == 1 else z3.BitVecSort(8 * es))
            mem = dict(mem); mem[r.rid] = base
            E.inputs.append((s, 'a', (base, n, kind, es), 8 * es))
            if not is_sym(args[4]) if E.real() else args[4].bits is not None:
                lo = args[4]; hi = args[5]
                z = (lo == hi) if E.real() else lo.bits == hi.bits
                if not z:
                    def fact(k, base=base, lo=lo, hi=hi):
                        v = E.funraw(base.f(bv(k, 64)), 32)
                        return zb(bAnd(E.fcmp('oge', 32, v, lo), E.fcmp('ole', 32, v, hi)))
                    E.facts.append((base.f, fact))
        return pc, mem, Ptr([(True, r.rid, Lin(0))])
    if name == 'vc_assume':
        c = simpb(tob(args[0]))
        if c is True: return pc, mem, None
        if c is False: return None
        return pc + (c,), mem, None
    if name == 'vc_assert':
        c = simpb(tob(args[0]))
        E.add_ob(E.cstring(args[1], mem), pc, c, 'assert')
        if c is True: return pc, mem, None
        if c is False: return None
        return pc + (c,), mem, None
    if name == 'vc_close':
        w = 64
        c = simpb(E.fcmp('oeq', 64, args[0], args[1]))
        E.add_ob(E.cstring(args[3], mem), pc, c, 'assert')
        return pc, mem, None
    if name == 'vc_assume_forall':
        # precondition for every k: instantiated at every index at which an input array is read
        g, rid, off = args[0].alts[0]
        fn = E.regions[rid].func
        if E.m.funcs[fn] is None: raise Unsupported('vc_assume_forall')
        import loops
        snap = dict(mem); guard = z3.And(*[zb(c) for c in pc]) if pc else z3.BoolVal(True)
        def fact(k, fn=fn, snap=snap, guard=guard): return z3.Implies(guard, loops.callinv(E, fn[1:], [k], snap))
        for a in E.inputs:
            if a[1] == 'a': E.facts.append((a[2][0].f, fact))
        return pc, mem, None
    if name == 'vc_cover':
        E.covers.append((E.cstring(args[0], mem), pc)); return pc, mem, None
    if name == 'vc_uff1':
        f = E.uf('uf_' + E.cstring(args[0], mem), E.fsort(32), E.fsort(32))
        return pc, mem, E.funraw(f(E.fraw(args[1], 32)), 32)
    if name == 'vc_ufu6':
        f = E.uf('uf_' + E.cstring(args[0], mem), *([z3.BitVecSort(32)] * 7))
        return pc, mem, f(*[bv(a, 32) for a in args[1:]])
    if name == 'vc_uff2':
        f = E.uf('uf_' + E.cstring(args[0], mem), E.fsort(32), E.fsort(32), E.fsort(32))
        return pc, mem, E.funraw(f(E.fraw(args[1], 32), E.fraw(args[2], 32)), 32)
    raise Unsupported('intrinsic ' + name)

def rng(E, pc, v, args):
    lo, hi = args[4], args[5]
    z = (lo == hi) if E.real() else lo.bits == hi.bits
    if z: return pc
    c = simpb(bAnd(E.fcmp('oge', 32, v, lo), E.fcmp('ole', 32, v, hi)))
    return pc if c is True else pc + (zb(c),)
