#!/usr/bin/env python3-vt
"""qvc: contract checks over the LLVM IR of /repo's current sources.  usage: driver.py PROPERTY [--harness H] [-v]"""
import sys, os, re, subprocess, time, json, tempfile, shutil, traceback, glob, struct
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('QVC_REPO', '/repo')
sys.path.insert(0, HERE)
import z3
from fractions import Fraction
from ir import Module, Unsupported
import execu, solve, par
from vals import *

CXXF = ['-std=c++11', '-fno-exceptions', '-fno-rtti', '-fno-strict-aliasing', '-ffp-contract=off', '-w']
SAN = ['-fsanitize=signed-integer-overflow,shift-exponent,integer-divide-by-zero,float-cast-overflow', '-fsanitize-trap=all']
PASSES = 'function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa)'

def sh(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    return p.returncode, p.stdout, p.stderr

class Harness:
    def __init__(self, name, kv, file):
        self.name = name; self.file = file; self.kv = kv
        g = kv.get
        self.mode = g('mode', 'fp'); self.unroll = int(g('unroll', '70'))
        self.props = g('prop', '').split(',')
        self.cut = [x for x in g('cut', '').split(',') if x]
        self.inv = [x for x in g('inv', '').split(',') if x]
        self.spec = {x.split(':')[0]: int(x.split(':')[1]) if ':' in x else 1 for x in g('spec', '').split(',') if x}
        self.stub = {}
        for x in g('stub', '').split(','):
            if '=>' in x: a, b = x.split('=>'); self.stub[a] = b
        self.internal = 'internal' in kv
        self.budget = float(g('budget', '60'))
        self.plan = [x for x in g('plan', '').split('+') if x] or None
        self.t1 = float(g('t1', '8' if g('mode','fp') == 'real' else '20'))
        self.tier = g('tier', 'quick')
        self.bounded = 'bounded' in kv
        self.nocut = 'nocut' in kv
        self.noub = 'noub' in kv
        self.assume = [x for x in g('assume', '').split(',') if x]
        self.note = g('note', '')

def parse_file(fn):
    hs = []; searches = []; sets = {}; txt = open(fn).read()
    for ln in txt.split('\n'):
        m = re.match(r'\s*//@\s*(harness|search|stubs)\s+(\S+)\s*(.*)', ln)
        if not m: continue
        kv = {}
        for tok in re.findall(r'(\w+)="([^"]*)"|(\S+)', m.group(3)):
            if tok[0]: kv[tok[0]] = tok[1]
            else:
                t = tok[2]
                if '=' in t and not t.startswith('='): k, v = t.split('=', 1); kv[k] = v
                else: kv[t] = True
        if m.group(1) == 'stubs': sets[m.group(2)] = kv.get('map', '')
        elif m.group(1) == 'harness': 
            h = Harness(m.group(2), kv, fn)
            for s in kv.get('stubset', '').split(','):
                if s:
                    for x in (sets.get(s) or COMMON_STUBS.get(s, '')).split(','):
                        if '=>' in x: a, b = x.split('=>'); h.stub.setdefault(a, b)
            hs.append(h)
        else: searches.append((m.group(2), kv))
    return hs, searches
COMMON_STUBS = {'real': ','.join('qlibs::ffmath::%s=>ST_%s' % (a, b) for a, b in (('getNan', 'nan'), ('absf', 'absf'), ('isEqual', 'isEqual'), ('cos', 'cos'), ('sqrt', 'sqrt'), ('exp', 'exp'), ('isNan', 'isNan')))}

def build_ir(cpp, tmp, log):
    """all of /repo/src/*.cpp + the contract file, linked, to textual IR"""
    srcs = sorted(glob.glob(REPO + '/src/*.cpp'))
    procs = []
    outs = []
    for s in srcs + [cpp]:
        o = os.path.join(tmp, os.path.basename(s) + ('.h.bc' if s == cpp else '.bc'))
        outs.append(o)
        cmd = ['clang++'] + CXXF + SAN + ['-DQVC', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-access-control', '-I' + REPO + '/src', '-I' + HERE, '-I' + ROOT + '/contracts', '-emit-llvm', '-c', s, '-o', o]
        procs.append((s, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for s, p in procs:
        out = p.communicate()[0]
        if p.returncode:
            raise BuildError('compiling %s failed:\n%s' % (s, out[-3000:]))
    ll = os.path.join(tmp, 'all.bc')
    r, o, e = sh(['/usr/lib/llvm-18/bin/llvm-link'] + outs + ['-o', ll])
    if r: raise BuildError('llvm-link: ' + e[-2000:])
    r, o, e = sh(['opt-18', '-S', '-passes=' + PASSES, ll, '-o', os.path.join(tmp, 'all.ll')])
    if r: raise BuildError('opt: ' + e[-2000:])
    return open(os.path.join(tmp, 'all.ll')).read()

class BuildError(Exception): pass

def native_cmd(cpp, tmp, san=True):
    srcs = sorted(glob.glob(REPO + '/src/*.cpp'))
    exe = os.path.join(tmp, 'native')
    flags = ['-std=c++11', '-O1', '-g1', '-w', '-fno-strict-aliasing', '-ffp-contract=off', '-I' + REPO + '/src', '-I' + HERE, '-I' + ROOT + '/contracts']
    if san: flags += ['-fsanitize=address,undefined', '-fno-sanitize=shift-base', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
    return exe, flags, srcs + [cpp, os.path.join(HERE, 'native.cpp')]

def start_native(cpp, tmp):
    exe, flags, srcs = native_cmd(cpp, tmp)
    ps = []
    for s in srcs:
        o = os.path.join(tmp, os.path.basename(s) + '.no')
        ps.append((s, o, subprocess.Popen(['g++'] + flags + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    return exe, flags, ps
def finish_native(st):
    exe, flags, ps = st
    objs = []
    for s, o, p in ps:
        out = p.communicate()[0]
        if p.returncode: raise BuildError('native compile of %s:\n%s' % (s, out[-3000:]))
        objs.append(o)
    r, o, e = sh(['g++'] + flags + objs + ['-o', exe])
    if r: raise BuildError('native link: ' + e[-2000:])
    return exe

def demangle(names):
    p = subprocess.run(['c++filt'], input='\n'.join(n[1:].strip('"') for n in names), capture_output=True, text=True)
    return dict(zip(names, p.stdout.split('\n')))

def gen(h, text, verbose=False):
    """VC generation for one harness"""
    t0 = time.time()
    mod = Module.parse(text)
    dem = demangle(list(mod.funcs))
    E = execu.Exec(mod, dem, mode=h.mode, unroll=h.unroll, stubs=h.stub, specs=h.spec, invs=h.inv, cut=h.cut,
                   opts={'bounded': h.bounded, 'nocut': h.nocut, 'inv_timeout': int(float(h.kv.get('invt', 8)) * 1000), 'debug': verbose, 'mulabs': 'mulabs' in h.kv, 'prune': 'prune' in h.kv, 'counters': 'counters' in h.kv})
    res = {'name': h.name, 'obs': [], 'error': None}
    try:
        mem = {}; pc = ()
        # dynamic initialisers of namespace-scope objects
        for pri, fn in mod.ctors:
            if fn in mod.funcs:
                try:
                    r = E.call_function(fn, [], pc, dict(mem))
                    if r: mem = r[1]
                except Unsupported as u:
                    if verbose: print('ctor', fn, u)
                    E.stack = []
        E.functions = {}; E.obs = []; E.trivial = 0
        nm = '@h_' + h.name
        if nm not in mod.funcs: raise Unsupported('harness function missing')
        r = E.call_function(nm, [], pc, mem)
        reach = None
        if r is None:
            reach = z3.BoolVal(False); rpc = (reach,)
        else: rpc = r[0]
        obs = E.obs
        if h.noub: obs = [o for o in obs if o.kind != 'ub']
        # group the memory-safety / UB obligations per name
        groups = {}
        for o in obs:
            if o.kind in ('mem', 'ub', 'unwind'): groups.setdefault((o.name, o.kind), []).append(o)
            else: groups.setdefault((o.name, id(o)), []).append(o)
        for key, os_ in groups.items():
            for o in os_:
                res['obs'].append({'name': o.name, 'kind': o.kind, 'fn': dem.get(o.fn, o.fn), 'smt': solve.smt2_of(E, o)})
        # vacuity: the end of the harness and every cover point must be reachable
        covers = [('end of harness', rpc)] + E.covers
        res['covers'] = []
        for n, p in covers:
            ob = execu.Ob(n, p, False, 'cover', '')
            res['covers'].append({'name': n, 'smt': solve.smt2_of(E, ob)})
    except Unsupported as u:
        res['error'] = 'VC generation: %s (in %s)' % (u, dem.get(E.stack[-1], '') if E.stack else '')
        if verbose: traceback.print_exc()
    except Exception as ex:
        res['error'] = 'VC generation: internal error %s: %s (in %s)' % (type(ex).__name__, ex, dem.get(E.stack[-1], '') if E.stack else '')
        if verbose: traceback.print_exc()
    res['trivial'] = E.trivial
    res['functions'] = sorted(dem.get(n, n) for n in E.functions if not n.startswith('@h_') and not n.startswith('@vc') and n[1:] not in h.spec)
    res['loops'] = E.loops
    res['contracts'] = dict(E.contract_used)
    res['assumed'] = sorted(set(E.assumed))
    res['inputs'] = [(n, k, (t[1] if not is_sym(t[1]) else str(t[1]), t[2], t[3]) if k == 'a' else None, w) for n, k, t, w in E.inputs]
    res['sizes'] = [str(t) for t in E.sizehints]
    res['loopobs'] = E.__dict__.get('loopobs', 0)
    res['gen_s'] = time.time() - t0
    res['nq'] = E.nqueries
    return res

def _gen(a): return gen(*a)

def model_of(args):
    """solver model of a failed obligation -> native input assignments"""
    smt, inputs, sizes, real, budget = args
    ctx = z3.Context()
    best = None
    for cap in (4, 8, None):
        if cap is not None and not sizes: continue
        s = z3.Solver(ctx=ctx); s.set('timeout', int(budget * 1000))
        try:
            s.from_string(smt)
            if cap is not None:
                for nm in sizes: s.add(z3.ULE(z3.BitVec(nm, 64, ctx), z3.BitVecVal(cap, 64, ctx)))
            if s.check() != z3.sat: continue
        except z3.Z3Exception: continue
        m = s.model(); best = m; break
    if best is None: return None
    m = best
    dec = {d.name(): d for d in m.decls()}
    out = []
    def fl(v):
        try:
            if z3.is_algebraic_value(v): v = v.approx(30)
            fr = Fraction(v.numerator_as_long(), v.denominator_as_long())
        except Exception: fr = Fraction(0)
        return frac_to_bits(fr, 32)
    env = {}
    for n, k, a, w in inputs:
        if k in ('i', 'f'):
            d = dec.get(n)
            if d is None: continue
            v = m[d]
            if k == 'f' and real: x = fl(v)
            else: x = v.as_long()
            env[n] = x; out.append((n, x))
        else:
            ln, kind, es = a
            if isinstance(ln, str):
                q = m.eval(z3.BitVec(ln, 64, ctx), model_completion=True) if ln in env or True else None
                try: ln = q.as_long()
                except Exception: continue
            d = dec.get('arr_' + n)
            for i in range(min(ln, 64)):
                if d is None: x = 0
                else:
                    v = m.eval(d(z3.BitVecVal(i, 64, ctx)), model_completion=True)
                    x = fl(v) if (kind == 1 and real) else v.as_long()
                out.append(('%s[%d]' % (n, i), x))
    return out

def run_native(exe, args, timeout):
    env = dict(os.environ); env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=0:allocator_may_return_null=1'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=0'
    try:
        p = subprocess.run([exe] + args, capture_output=True, text=True, timeout=timeout, env=env, errors='replace')
        return p.returncode, p.stdout[-1500:], p.stderr[-3000:]
    except subprocess.TimeoutExpired:
        return 'timeout', '', ''

def main():
    t00 = time.time()
    args = sys.argv[1:]
    verbose = '-v' in args
    prop = args[0]
    only = None
    if '--harness' in args: only = args[args.index('--harness') + 1]
    nonative = '--no-native' in args
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    files = sorted(glob.glob(ROOT + '/contracts/%s*.cpp' % prop))
    if not files: print('no contracts for ' + prop); return 2
    cpp = files[0]
    hs, searches = parse_file(cpp)
    if only: hs = [h for h in hs if h.name == only]
    if tier == 'quick': hs = [h for h in hs if h.tier != 'thorough']
    tmp = tempfile.mkdtemp(prefix='qvc_%s_' % prop)
    outdir = os.path.join(ROOT, 'evidence', 'replay', prop)
    shutil.rmtree(outdir, ignore_errors=True); os.makedirs(outdir, exist_ok=True)
    scale0 = 10.0 if tier == 'thorough' else 1.0
    failures = []   # dicts
    results = []
    stats = {'obligations': 0, 'discharged': 0, 'trivial': 0, 'solver_s': 0.0, 'backends': {}}
    covers_bad = []
    native = None; search_log = []
    try:
        exe = None; concrete = None; avail = {}; evals = 0; searched = False
        def get_exe():
            nonlocal exe, avail, nat
            if nat is None: return
            try: exe = finish_native(nat)
            except BuildError as b:
                failures.append({'harness': '-', 'name': 'the contracts do not compile natively against this tree', 'detail': str(b)})
            nat = None
            if exe:
                r, out, err = run_native(exe, ['list'], 20)
                avail = dict((l.split()[0], int(l.split()[1])) for l in out.split('\n') if l.strip())
        def replay_models():
            nonlocal concrete
            get_exe()
            if not exe: return
            mj = [f for f in failures if f.get('r') == 'sat' and not f.get('replayed') and f['harness'] in avail and not f['h'].internal]
            models = [None] * len(mj)
            for i, ok, md in par.run(model_of, [(i, (f['o']['smt'], f['g']['inputs'], f['g']['sizes'], f['h'].mode == 'real', 30)) for i, f in enumerate(mj)], lambda a: 100.0):
                if ok: models[i] = md
            for f in mj: f['replayed'] = True
            for f, md in zip(mj, models):
                if md is None: continue
                rf = os.path.join(outdir, '%s.%d.model' % (f['harness'], len(search_log)))
                with open(rf, 'w') as fo:
                    fo.write('harness %s\nobligation %s\n' % (f['harness'], f['name']))
                    for n, x in md: fo.write('%s 0x%x\n' % (n, x))
                rr, so, se = run_native(exe, ['replay', f['harness'], rf], 40)
                search_log.append(('replay of the solver model', f['harness'], rr, so.strip()[-200:]))
                if rr not in (0, 4, 3):
                    with open(rf, 'a') as fo: fo.write('# native replay: %s %s\n%s\n' % (rr, so, se))
                    concrete = (rf, f['harness'], (so + se).strip()); break
        def native_search(bud):
            nonlocal concrete, evals
            get_exe()
            if not exe: return
            names = [n for n in avail if not only or n == only or avail[n] == 1]
            skip = set(h.name for h in hs if h.internal)
            names = [n for n in names if n not in skip]
            bud *= (4 if tier == 'thorough' else 1)
            jobs2 = [(exe, n, seed, bud, os.path.join(outdir, n + '.search')) for n in names]
            for _k, ok, res in par.run(_search, [(j[1], j) for j in jobs2], lambda a: a[3] + 70.0):
                if not ok: search_log.append(('search', _k, 'no answer', '')); continue
                n, rr, so, se, rf = res
                search_log.append(('search', n, rr, so.strip()[-200:]))
                m = re.search(r'admissible (\d+)', so)
                if m: evals += int(m.group(1))
                if verbose: print('  native', n, rr, so.strip(), se.strip()[:500] if rr else '')
                if rr not in (0, 3) and concrete is None:
                    with open(rf, 'a') as fo: fo.write('# native: exit %s %s\n%s\n' % (rr, so, se))
                    concrete = (rf, n, (so + se).strip())
        nat = None
        text = None
        try:
            text = build_ir(cpp, tmp, None)
        except BuildError as b:
            failures.append({'harness': '-', 'name': 'the contracts do not compile against this tree', 'detail': str(b)})
        if verbose: print('build %.1fs' % (time.time() - t00))
        if not nonative: nat = start_native(cpp, tmp)
        if text is not None:
            gd = {}
            for i, ok, res in par.run(_gen, [(i, (h, text, verbose)) for i, h in enumerate(hs)], lambda a: GEN_LIMIT * scale0, until=t00 + GEN_LIMIT * scale0):
                if ok: gd[i] = res
                else: gd[i] = {'name': hs[i].name, 'obs': [], 'covers': [], 'trivial': 0, 'loopobs': 0, 'error': 'verification conditions not generated within the time limit' if ok is None else 'VC generation failed: ' + res[-500:], 'functions': [], 'contracts': {}, 'assumed': [], 'loops': [], 'gen_s': 0.0, 'inputs': [], 'sizes': {}}
            gens = [gd[i] for i in range(len(hs))]
            if verbose: print('vcgen %.1fs' % (time.time() - t00))
            jobs = []; meta = []
            scale = 3.0 if tier == 'thorough' else 1.0
            for h, g in zip(hs, gens):
                g['h'] = h; results.append(g)
                stats['trivial'] += g['trivial']
                stats['obligations'] += g['trivial'] + g['loopobs']; stats['discharged'] += g['trivial'] + g['loopobs']
                if g['error']:
                    failures.append({'harness': h.name, 'name': g['error'], 'detail': '', 'h': h}); stats['obligations'] += 1
                for o in g['obs']:
                    jobs.append((len(jobs), o['smt'], h.mode, h.budget * scale, {'plan': h.plan, 't1': h.t1})); meta.append((h, g, o, 'ob'))
                for o in g.get('covers', []):
                    jobs.append((len(jobs), o['smt'], h.mode, 4 if h.mode == 'real' else 20, {'plan': ['z3'] if h.mode == 'real' else ['z3', 'cvc5'], 't1': 4 if h.mode == 'real' else 20})); meta.append((h, g, o, 'cover'))
            def final(idx, r, be, t):
                h, g, o, k = meta[idx]
                if k == 'cover':
                    if r == 'unsat': covers_bad.append((h, o['name']))
                    elif r == 'unknown': g.setdefault('cover_unknown', []).append(o['name'])
                    return
                stats['obligations'] += 1
                o['result'] = r; o['backend'] = be; o['t'] = t
                if verbose and (t > 3 or r != 'unsat'): print('  %-8s %-8s %5.1fs %s: %s' % (r, be, t, h.name, o['name']))
                if r == 'unsat':
                    stats['discharged'] += 1; stats['backends'][be] = stats['backends'].get(be, 0) + 1
                else:
                    failures.append({'harness': h.name, 'name': o['name'], 'detail': 'solver answered %s (%s, %.1fs)' % (r, be, t), 'h': h, 'o': o, 'g': g, 'r': r})
            def run_pass(js, open_):
                """discharge js; a still unknown obligation goes to open_ (or is final when open_ is None)"""
                end = t00 + SOLVE_LIMIT * scale0
                race = open_ is None and len(js) <= 8          # few left: all back ends at once
                sub = []
                for j in js:
                    if race: sub += [((j[0], st), j[:4] + (dict(j[4], plan=[st]),)) for st in list(j[4]['plan']) + ['z3s1', 'z3s2']]
                    else: sub.append(((j[0], ''), j))
                left = {}
                for k, _a in sub: left.setdefault(k[0], set()).add(k)
                tm = {}
                it = par.run(solve.discharge, sub, solve.limit, until=end, chunk=6)
                try: m = next(it)
                except StopIteration: return
                while True:
                    key, ok, res = m; cancel = None; idx = key[0]
                    if idx in left:
                        left[idx].discard(key)
                        r, be, t = res[1:] if ok else ('unknown', 'killed at its time limit' if time.time() < end else 'time limit', 0.0)
                        tm[idx] = tm.get(idx, 0.0) + t; stats['solver_s'] += t
                        if r != 'unknown' or not left[idx]:
                            cancel = left.pop(idx)
                            if r == 'unknown' and open_ is not None and time.time() < end and meta[idx][3] != 'cover': open_.append(idx)
                            else: final(idx, r, be, tm[idx])
                    try:
                        m = it.send(cancel) if cancel else next(it)
                        if m is None: m = next(it)
                    except StopIteration: break
            rest = []
            first, second = [], {}
            for j in jobs:
                plan = j[4].get('plan') or solve.default_plan(j[2])
                first.append(j[:4] + (dict(j[4], plan=plan[:1]),)); second[j[0]] = j[:4] + (dict(j[4], plan=plan[1:] or plan),)
            run_pass(first, rest)
            if rest and failures: replay_models()
            if rest and not nonative:        # a failing input found now makes the long solver runs pointless
                if concrete is None:
                    native_search(2.0); searched = True
                if concrete is not None:
                    for i in rest: final(i, 'unknown', 'first solver only: failing input already found', 0.0)
                    rest = []
            again = [second[i] for i in rest if second[i][4]['plan']]
            for i in rest:
                if not second[i][4]['plan']: final(i, 'unknown', 'plan exhausted', 0.0)
            if again: run_pass(again, None)
            for h, n in covers_bad:
                failures.append({'harness': h.name, 'name': 'vacuity: %s is unreachable under the contract' % n, 'detail': '', 'h': h})
            for g in results:
                if not g['error'] and (len(g['obs']) + g['trivial']) == 0:
                    failures.append({'harness': g['name'], 'name': 'vacuity: no obligations generated', 'detail': ''})
        if verbose: print('solve %.1fs' % (time.time() - t00))
        if nat is not None: get_exe()
        if exe:
            # 1. replay solver models
            if failures and concrete is None:
                replay_models()
            # 2. randomized search of the executable contracts
            if concrete is None and (failures or not searched): native_search(25.0 if failures else 2.0)
        known = load_known(prop)
        viol = 0
        rc = 0
        if failures or concrete:
            rep = concrete[0] if concrete else os.path.join(outdir, 'failed-obligations.txt')
            lines = []
            for f in failures:
                lines.append('obligation FAILED  [%s] %s\n    %s' % (f['harness'], f['name'], f['detail']))
            if concrete:
                with open(rep, 'a') as fo: fo.write('\n# failed obligations\n' + '\n'.join('# ' + l for x in lines for l in x.split('\n')) + '\n# replay: build the contracts natively and run: native replay %s <this file>\n' % concrete[1])
            else:
                with open(rep, 'w') as fo:
                    fo.write('\n'.join(lines) + '\n\nnative attempts:\n' + '\n'.join(map(str, search_log)) + '\n')
                    for f in failures[:3]:
                        if 'o' in f: fo.write('\n; ---- %s: %s\n%s\n' % (f['harness'], f['name'], f['o']['smt'][:20000]))
            for l in lines[:12]: print(l)
            if concrete: print('failing input on the real code [%s]: %s' % (concrete[1], concrete[2][:600]))
            rel = os.path.relpath(rep, ROOT)
            print('VIOLATION property=%s replay=%s%s' % (prop, os.path.join('/verif', rel) if ROOT == '/verif' else rep, '' if concrete else ' no-failing-input-found'))
            viol = len(failures) + (1 if concrete else 0); rc = 1
        for k in known: print('KNOWN-FINDING: property=%s %s' % (prop, k))
        write_evidence(prop, tier, seed, hs, results, stats, failures, search_log, evals, time.time() - t00, viol, cpp, rc)
        if rc == 0:
            print('%s: %d obligations discharged (%d by simplification, %s), %.1fs' % (prop, stats['discharged'], stats['trivial'], stats['backends'], time.time() - t00))
        return rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

GEN_LIMIT, SOLVE_LIMIT = 400.0, 620.0
def _search(a):
    exe, n, seed, bud, rf = a
    rr, so, se = run_native(exe, ['search', n, str(seed), '100000000', rf, str(bud)], bud + 60)
    return n, rr, so, se, rf

def load_known(prop):
    out = []
    try:
        for l in open(ROOT + '/KNOWN_FINDINGS.txt'):
            m = re.match(r'finding: property=(\S+) (.*)', l)
            if m and m.group(1) == prop: out.append(m.group(2).strip())
    except FileNotFoundError: pass
    return out

def write_evidence(prop, tier, seed, hs, results, stats, failures, slog, evals, wall, viol, cpp, rc):
    funcs = {}
    for g in results:
        for f in g['functions']: funcs.setdefault(f, []).append(g['name'])
    per = []
    assume = set(['LLVM 18 clang front end and the sroa/early-cse/simplifycfg/instcombine/loop-simplify/lcssa passes preserve the meaning of the source',
                  'qvc (the VC generator in /verif/qvc) and the solvers that answered are sound', 'partial correctness: termination of unbounded loops is not proved'])
    for g in results:
        h = g['h']
        if h.mode == 'real': assume.add('harness %s: floating-point arithmetic treated as exact real arithmetic' % h.name)
        if h.mode == 'uf': assume.add('harness %s: floating-point arithmetic is an uninterpreted (arbitrary) function; comparisons exact' % h.name)
        for k, v in g['contracts'].items(): assume.add('harness %s: callee %s used through its contract %s' % (h.name, k, v))
        for a in g['assumed']: assume.add('harness %s: %s' % (h.name, a))
        if h.note: assume.add('harness %s: %s' % (h.name, h.note.replace('_', ' ')))
        per.append({'harness': h.name, 'mode': {'fp': 'bit-precise', 'real': 'real arithmetic', 'uf': 'uninterpreted float arithmetic'}.get(h.mode, h.mode),
                    'obligations': g['trivial'] + g['loopobs'] + len(g['obs']), 'by_solver': len(g['obs']), 'bounded': bool(h.bounded),
                    'loops': [list(map(str, l)) for l in g['loops']][:12], 'vcgen_s': round(g['gen_s'], 2), 'error': g['error'],
                    'asserts': sorted(set(o['name'] for o in g['obs'] if o['kind'] == 'assert'))[:60],
                    'vacuity': {'covers': len(g.get('covers', [])), 'undecided': g.get('cover_unknown', [])}})
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'proof',
          'coverage': {'obligations': stats['obligations'], 'discharged': stats['discharged'],
                       'checker_cmd': 'python3-vt /verif/qvc/driver.py %s' % prop,
                       'trusted_base': ['clang 18 front end and canonicalisation passes', 'qvc VC generator', 'z3 5.3.2 / cvc5 1.1.2 / z3 4.8.12'],
                       'discharged_by_simplification': stats['trivial'], 'discharged_by_backend': stats['backends'],
                       'solver_time_s': round(stats['solver_s'], 2), 'contract_file': os.path.relpath(cpp, ROOT),
                       'functions_under_contract': sorted(funcs), 'harnesses': per,
                       'undischarged': [{'harness': f['harness'], 'obligation': f['name']} for f in failures],
                       'native_contract_evaluations': evals,
                       'native_log': [list(map(str, x)) for x in slog][:40]},
          'assumptions': sorted(assume), 'wall_s': round(wall, 2), 'violations': viol}
    os.makedirs(ROOT + '/evidence', exist_ok=True)
    with open(ROOT + '/evidence/%s.json' % prop, 'w') as f: json.dump(ev, f, indent=1)

if __name__ == '__main__':
    try: rc = main()
    except Exception:
        traceback.print_exc(); rc = 3
    sys.exit(rc)
