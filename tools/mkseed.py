#!/usr/bin/env python3
"""Build /verif/seeded/<id>/ from tools/seeds/*.py definitions, confirming each in a scratch copy of /repo.
   mkseed.py [ID ...] [--catch]   (--catch: also run the property's check on the patched scratch copy)"""
import sys, os, subprocess, shutil, json, glob, tempfile
HERE=os.path.dirname(os.path.abspath(__file__)); VER=os.path.dirname(HERE)
SEEDS={}
def seed(id, prop, file, edits, demo, srcs, needs, breaks):
    assert id not in SEEDS, id
    SEEDS[id]=dict(prop=prop,file=file,edits=edits,demo=demo,srcs=srcs,needs=needs,breaks=breaks)
for f in sorted(glob.glob(HERE+'/seeds/*.py')): exec(compile(open(f).read(),f,'exec'))
PRE='''#include <cstdio>
#include <cstring>
#include <cmath>
#include <cstdlib>
#include <iostream>
#include <vector>
static int bad = 0;
#define CHECK(c) do { if (!(c)) { std::printf("FAILED line %d: %s\\n", __LINE__, #c); bad = 1; } } while (0)
'''
def sh(c,cwd,to=300): return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,timeout=to)
def build(d):
    r=sh("cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_CXX_FLAGS=-Wno-error && ninja -C _build && timeout 60 _build/build/bin/qlibs_cpp_test >/dev/null",d)
    return r.returncode==0, r.stdout+r.stderr
def main():
    ids=[a for a in sys.argv[1:] if not a.startswith('-')] or list(SEEDS)
    catch='--catch' in sys.argv
    for i in ids:
        s=SEEDS[i]; out=f'{VER}/seeded/{i}'
        w=tempfile.mkdtemp(prefix='seed_',dir='/tmp'); d=w+'/repo'
        try:
            sh(f'git clone -q /repo {d}','/tmp')
            os.makedirs(out,exist_ok=True)
            open(out+'/demo.cpp','w').write(PRE+s['demo'])
            srcs=' '.join('src/'+x for x in s['srcs'].split())
            open(out+'/demo.sh','w').write(f'''#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise
set -u
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -O1 -Isrc "$here/demo.cpp" {srcs} -o "$t/demo" || exit 2
timeout 60 "$t/demo"
''')
            os.chmod(out+'/demo.sh',0o755)
            r0=sh(f'bash {out}/demo.sh',d)
            eds=s['edits']
            for ed in eds:
                f,o,n=ed if len(ed)==3 else (s['file'],)+tuple(ed)
                p=f'{d}/{f}'; t=open(p).read()
                assert t.count(o)==1,(i,f,t.count(o),o)
                open(p,'w').write(t.replace(o,n))
            diff=sh('git diff',d).stdout
            open(out+'/patch.diff','w').write(diff)
            bl=sh('git blame -s HEAD -- '+s['file'],d).stdout.splitlines(); mine=[l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
            org=[l.split(') ',1)[1] if ') ' in l else '' for l in bl if l.startswith('^')]
            if not any(m in org for m in mine if m.strip()): print(i,'changes no original line')
            ok,log=build(d)
            r1=sh(f'bash {out}/demo.sh',d)
            json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['breaks']),open(out+'/meta.json','w'),indent=1)
            good = r0.returncode==0 and ok and r1.returncode not in (0,2)
            print(i,'OK' if good else f'BAD clean={r0.returncode} build={ok} patched={r1.returncode}',flush=True)
            if not good: print((r0.stdout+r0.stderr)[-600:],r1.stdout[-600:],log[-500:] if not ok else '')
            if catch and good:
                import time; t0=time.time()
                r=subprocess.run(f'QVC_EVIDENCE=/tmp QVC_REPO={d} python3-vt {VER}/qvc/driver.py {s["prop"]}',shell=True,cwd=VER,capture_output=True,text=True)
                v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                print('   check exit',r.returncode,v[:2],f'{time.time()-t0:.0f}s',flush=True)
                cf=VER+'/meta/caught.json'; c=json.load(open(cf)) if os.path.exists(cf) else {}
                m=[x for x in v if ' replay=' in x]; how='missed'
                if r.returncode==1 and m: how=s['prop']+(' (failed obligation, no failing input)' if 'no-failing' in m[0] else ' (failing input: '+os.path.basename(m[0].split('replay=')[1])+')')
                c[i]=how; json.dump(c,open(cf,'w'),indent=1,sort_keys=True)
                if r.returncode!=1: print(r.stdout[-800:],r.stderr[-500:])
        finally: shutil.rmtree(w,ignore_errors=True)
main()
