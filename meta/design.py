#!/usr/bin/env python3
"""Fills the generated sections of DESIGN.md (kept between markers) from props, KNOWN_FINDINGS.txt and seeded/*/meta.json."""
import os, re, sys, json, glob
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,R+'/meta')
from props import PROPS, NA
def sec(name, body, t):
    a,b=f'<!-- {name} -->',f'<!-- /{name} -->'
    if name.upper()+'_HERE' in t: return t.replace(name.upper()+'_HERE',a+'\n'+body+'\n'+b)
    i,j=t.index(a),t.index(b); return t[:i]+a+'\n'+body+'\n'+t[j:]
def count(p):
    fs=glob.glob(f'{R}/contracts/{p}_*.cpp')
    if not fs: return ''
    s=open(fs[0]).read(); h=re.findall(r'^//@ harness (.*)$',s,re.M)
    nb=sum(' bounded' in x for x in h); th=sum('tier=thorough' in x for x in h); se=len(re.findall(r'^VC_SEARCH\(',s,re.M))
    md={}
    for x in h: m=re.search(r'mode=(\w+)',x); m=m.group(1) if m else 'fp'; md[m]=md.get(m,0)+1
    return f'`contracts/{os.path.basename(fs[0])}`: {len(h)} harnesses ({", ".join(f"{v} {k}" for k,v in sorted(md.items()))}), {nb} labelled bounded, {th} thorough only, {se} native-only evaluations.'
def props():
    o=[]
    for p in PROPS:
        o.append(f"### {p['id']} {p['title']}\n")
        if p['id'] in NA: o.append('**Not applicable**: '+NA[p['id']]+'\n'); continue
        o.append(f"*Decided by*: {p['note']}\n\n*Quantified over*: {p['text']}. *Oracle*: the definition written in the contract file, independent of the code. {count(p['id'])}\n\n*Beyond tests*: {p['why']}\n")
    return '\n'.join(o)
def fixes():
    l=[x.split(' ',1)[1].strip() for x in open(R+'/KNOWN_FINDINGS.txt') if x.startswith('fixed:')]
    f=[x.split(' ',1)[1].strip() for x in open(R+'/KNOWN_FINDINGS.txt') if x.startswith('finding:')]
    return '\n'.join('* '+x for x in l)+('\n\nRecorded, not repaired:\n\n'+'\n'.join('* '+x for x in f) if f else '')
def seeds():
    try: cat=json.load(open(R+'/meta/caught.json'))
    except Exception: cat={}
    o=['| id | property | needs | caught by |','|---|---|---|---|']
    for d in sorted(glob.glob(R+'/seeded/*/meta.json')):
        m=json.load(open(d)); i=os.path.basename(os.path.dirname(d)); o.append(f"| {i} | {m['property']} | {m['needs']} | {cat.get(i,'?')} |")
    return '\n'.join(o)
t=open(R+'/DESIGN.md').read()
for n,f in (('properties',props),('fixes',fixes),('seeds',seeds)): t=sec(n,f(),t)
open(R+'/DESIGN.md','w').write(t)
