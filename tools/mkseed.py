#!/usr/bin/env python3
"""Builds and confirms a planted bug.
usage: mkseed.py SPEC.py [--check]   SPEC defines: id, prop, edits=[(file,old,new)...], needs, breaks, demo (C++ source), flags=''
Confirms in a scratch copy: builds, stable tests pass, demo 0 before / nonzero after, touched lines are original ones."""
import sys, os, subprocess, json, shutil, tempfile
V=os.environ.get('SEED_VERIF','/verif'); R=os.environ.get('SEED_REPO','/repo'); BASE='24f920b'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
spec={}; exec(open(sys.argv[1]).read(), spec)
sid, prop = spec['id'], spec['prop']
demo_sh='''#!/bin/bash
# cwd: the repository, already built in _build
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
g++ -std=gnu++17 -g -w -fopenmp %s -I"$R/_build/include" -I"$R/include" -I/usr/include/hdf5/serial "$D/demo.cpp" "$R/_build/src/libsoftlib.a" \\
  -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5_cpp -lhdf5 -lgsl -lgslcblas -lpng -lz -lm -o "$T/demo" || exit 2
cd "$T" && timeout 120 ./demo
'''
S='/tmp/seedwork'; 
def build(d):
    r=sh(f'cd {d} && ([ -f _build/build.ninja ] || cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DBUILD_TESTS=ON -DCMAKE_CXX_FLAGS=-Wno-error) >/dev/null 2>&1; ninja -C _build 2>&1 | tail -30')
    return 'FAILED' not in r.stdout and 'error' not in r.stdout, r.stdout
def tests(d):
    base=json.load(open('/opt/vp/BASELINE.json')); names=base.get('stable') or base.get('passed') or base.get('tests') or base
    bad=[]
    for t in names:
        t=t if isinstance(t,str) else t.get('name'); w=tempfile.mkdtemp(prefix='seedt.',dir='/tmp'); os.mkdir(w+'/cwd'); os.symlink(d+'/tests',w+'/tests')
        r=sh(f'cd {w}/cwd && timeout 120 {d}/_build/tests/softlib_tests {t.split("::")[-1]}'); shutil.rmtree(w)
        if 'completed successfully' not in r.stdout+r.stderr: bad.append(t)
    return bad
head=sh('git -C '+R+' rev-parse HEAD').stdout.strip()
if os.path.exists(S+'/.git') or os.path.exists(S):
    sh(f'cd {S} && git checkout -q -- . ; git fetch -q {R} HEAD && git reset -q --hard {head}')
    if sh(f'git -C {S} rev-parse HEAD').stdout.strip()!=head: shutil.rmtree(S)
if not os.path.exists(S): sh(f'git clone -q {R} {S}')
out=f'{V}/seeded/{sid}'; os.makedirs(out,exist_ok=True)
open(out+'/demo.cpp','w').write(spec['demo']); open(out+'/demo.sh','w').write(demo_sh%spec.get('flags',''))
json.dump({'property':prop,'needs':spec['needs'],'what_it_breaks':spec['breaks']},open(out+'/meta.json','w'),indent=1)
ok,o=build(S); assert ok,o
r=sh(f'cd {S} && bash {out}/demo.sh'); print('demo clean:',r.returncode,r.stdout[-500:],r.stderr[-1500:])
good=r.returncode==0
for f,a,b in spec['edits']:
    p=f'{S}/{f}'; s=open(p).read(); assert s.count(a)==1,(f,s.count(a),a); open(p,'w').write(s.replace(a,b))
d=sh(f'cd {S} && git diff').stdout; open(out+'/patch.diff','w').write(d)
# removed lines must be in the original file
cur=None; orig=0; total=0
for l in d.split('\n'):
    if l.startswith('--- a/'): cur=set(sh(f'git -C {R} show {BASE}:{l[6:]}').stdout.split('\n'))
    elif l.startswith('-') and not l.startswith('---'): total+=1; orig+=l[1:] in cur
print('removed lines original: %d/%d'%(orig,total)); good&=orig>0
ok,o=build(S); print('build:',ok, '' if ok else o); good&=ok
bad=tests(S); print('failing stable tests:',bad); good&=not bad
r=sh(f'cd {S} && bash {out}/demo.sh'); print('demo patched:',r.returncode,r.stdout[-500:],r.stderr[-500:]); good&=r.returncode not in (0,2)
print('CONFIRMED' if good else 'NOT OK')
if good and '--check' in sys.argv:
    # the scratch copy, with the change, in place of /repo
    r=sh(f'cd {V} && VERIF_REPO={S} timeout 900 python3 check.py {prop} quick')
    print('check exit',r.returncode, [l for l in r.stdout.split('\n') if 'VIOLATION' in l or 'held' in l or l.startswith('  suite')][:4], r.stdout[-400:] if r.returncode not in(0,1) else '')
    m=json.load(open(out+'/meta.json')); m['caught_by']=f'{prop} quick' if r.returncode==1 else 'missed'; json.dump(m,open(out+'/meta.json','w'),indent=1)
sh(f'git -C {S} checkout -q -- .')
if not good: shutil.rmtree(out)
