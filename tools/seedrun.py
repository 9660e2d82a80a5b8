#!/usr/bin/env python3
"""runs every claimed check against every seed (in a scratch copy) and writes tools/caught.json"""
import json,os,subprocess,glob,sys
from concurrent.futures import ThreadPoolExecutor
V='/verif'; cp='/tmp/seedrepo'
def sh(c): return subprocess.run(['bash','-c',c],capture_output=True,text=True)
ids=[c['property'] for c in json.load(open(f'{V}/MANIFEST.json'))['checks']]
f=f'{V}/tools/caught.json'
caught=json.load(open(f)) if os.path.exists(f) else {}
seeds=sys.argv[1:] or [os.path.basename(d) for d in sorted(glob.glob(f'{V}/seeded/*'))]
for s in seeds:
    sh(f'rm -rf {cp}; cp -a /repo {cp}')
    r=sh(f'git -C {cp} apply {V}/seeded/{s}/patch.diff')
    if r.returncode: print(s,'does not apply',r.stderr); continue
    def one(i):
        v=f'/tmp/seedv{i}'
        r=sh(f'. /opt/vp/env.sh; mkdir -p {v}; cp {V}/known_findings.txt {v}/; FAVE_REPO={cp} FAVE_VERIF={v} {V}/bin/favecheck -n -property {i}; e=$?; rm -rf {v}; exit $e')
        return i,r.returncode
    with ThreadPoolExecutor(6) as ex: caught[s]=sorted(i for i,c in ex.map(one,ids) if c==1)
    mt=json.load(open(f'{V}/seeded/{s}/meta.json'))
    print(s,mt['property'],caught[s],'' if mt['property'] in caught[s] else 'MISSED')
caught={k:v for k,v in caught.items() if os.path.exists(f'{V}/seeded/{k}')}
json.dump(caught,open(f,'w'),indent=1,sort_keys=True)
sh(f'rm -rf {cp}')
