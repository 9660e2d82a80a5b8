#!/usr/bin/env python3
"""mkseed.py DIR...: DIR (tools/seedsrc/<id>) holds case.txt (mut.py format, one case), demo_test.go (+ 'pkg' line in meta), meta.json with needs/what_it_breaks/pkg.
Builds /verif/seeded/<id>: patch.diff, demo.sh, demo files, meta.json, after confirming everything in a scratch copy."""
import subprocess, sys, os, shutil, json
sys.argv0=sys.argv
V='/verif'; SC='/tmp/srepo'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
sys.path.insert(0,V+'/tools')
def parse(f):
    cases=[];cur=None;mode=None
    for l in open(f).read().split('\n'):
        if l.startswith('=== '):
            n=l.split(); cur={'name':n[1],'prop':n[2],'edits':[]}; cases.append(cur)
        elif l.startswith('@@ '): cur['edits'].append([l[3:].strip(),[],[]]); mode=1
        elif l=='---': mode=2
        elif l=='+++': mode=1; cur['edits'].append([cur['edits'][-1][0],[],[]])
        elif cur and cur['edits']: cur['edits'][-1][mode].append(l)
    return cases[0]
DEMO='''#!/bin/bash
# exits 0 when the behaviour is right, non-zero when it is broken; cwd is the repository
. /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
ov=$(mktemp); trap 'rm -f "$ov"' EXIT
cat > "$ov" <<J
{"Replace": {"$repo/pkg/hnsw/hnsw_test.go": ""%s}}
J
go test -overlay "$ov" %s-vet=off -count=1 -timeout 240s -run '^TestSeed' ./%s
'''
if not os.path.exists(SC): sh(f'cp -a /repo {SC}')
assert SC.startswith('/tmp/') and os.path.isdir(SC+'/.git'), SC
sh(f'git -C {SC} checkout -q -- . && git -C {SC} clean -fdq && git -C {SC} fetch -q /repo HEAD && git -C {SC} reset -q --hard FETCH_HEAD')
base=json.load(open('/opt/vp/BASELINE.json'))
ok_all=True
for d in sys.argv[1:]:
    d=d.rstrip('/'); sid=os.path.basename(d); meta=json.load(open(d+'/meta.json')); c=parse(d+'/case.txt')
    sh(f'git -C {SC} checkout -q -- .')
    good=True
    for path,old,new in c['edits']:
        o='\n'.join(old).strip('\n'); n='\n'.join(new).strip('\n')
        if not o: continue
        p=os.path.join(SC,path); s=open(p).read()
        if s.count(o)<1: print(sid,'NOMATCH',path,repr(o[:70])); good=False; break
        open(p,'w').write(s.replace(o,n,1))
    if not good: ok_all=False; continue
    b=sh(f'. /opt/vp/env.sh; cd {SC} && gofmt -l $(git diff --name-only); go build ./... 2>&1|head')
    if b.stdout.strip(): print(sid,'BUILD/FMT',b.stdout); 
    diff=sh(f'git -C {SC} diff').stdout
    # removed lines of the original repository?
    orig=0
    for l in sh(f"cd {SC} && git diff -U0 | grep -E '^(@@|---)'").stdout.split('\n'):
        if l.startswith('--- a/'): cur=l[6:]
        elif l.startswith('@@'):
            import re
            m=re.match(r'@@ -(\d+)(?:,(\d+))?',l); a=int(m[1]); k=int(m[2] or 1)
            if k:
                bl=sh(f'git -C {SC} blame -s -L {a},+{k} HEAD -- {cur}').stdout
                r0=sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.strip()[:7]
                orig+=sum(1 for x in bl.split('\n') if x and x.lstrip('^').startswith(r0))
    out=f'{V}/seeded/{sid}'; shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
    open(out+'/patch.diff','w').write(diff)
    pkg=meta['pkg']; rep=''
    for f in sorted(os.listdir(d)):
        if f.endswith('_test.go'):
            shutil.copy(d+'/'+f,out+'/'+f+'.txt'); rep+=f', "$repo/{pkg}/{f}": "$d/{f}.txt"'
    if meta.get('env'):
        shutil.copy(f'{V}/tools/seedsrc/{meta["env"]}',out+'/env_test.go.txt'); rep+=f', "$repo/{pkg}/seedenv_verif_test.go": "$d/env_test.go.txt"'
    # the overlay wants .go files
    open(out+'/demo.sh','w').write(DEMO%(rep.replace('.txt"','"') if False else rep, '-race ' if meta.get('race') else '', pkg))
    os.chmod(out+'/demo.sh',0o755)
    json.dump({k:meta[k] for k in ('property','needs','what_it_breaks')},open(out+'/meta.json','w'),indent=1)
    t=sh(f"cd {SC} && sed 's#/repo#{SC}#g' /opt/vp/overlay.json > /tmp/sov.json; sed 's#cd /repo#cd {SC}#; s#/opt/vp/overlay.json#/tmp/sov.json#' /opt/vp/test.sh > /tmp/stest.sh && bash /tmp/stest.sh /tmp/sout.json; cat /tmp/sout.json")
    res=json.loads(t.stdout[t.stdout.index('{'):]) if '{' in t.stdout else {}
    lost=[x for x in base.get('passed',base.get('stable',[])) if x not in res.get('passed',[])]
    dm=sh(f'cd {SC} && bash {out}/demo.sh')
    sh(f'git -C {SC} checkout -q -- .')
    dc=sh(f'cd {SC} && bash {out}/demo.sh')
    st='ok' if (dm.returncode!=0 and dc.returncode==0 and not lost and orig>0) else 'BAD'
    if st=='BAD': ok_all=False
    print(sid,meta['property'],st,'orig',orig,'lost',lost[:3],'demo patched',dm.returncode,'clean',dc.returncode)
    if st=='BAD' or os.environ.get('V'): print(dm.stdout[-1200:],dm.stderr[-600:],'--- clean:',dc.stdout[-1200:],dc.stderr[-600:])
    r=sh(f'git -C {SC} apply {out}/patch.diff && . /opt/vp/env.sh; FAVE_REPO={SC} FAVE_VERIF=/tmp/mverif {V}/bin/favecheck -n -property {meta["property"]}'); sh(f'git -C {SC} checkout -q -- .')
    print('   check:', 'CAUGHT' if 'VIOLATION' in r.stdout else 'missed', [l[:160] for l in r.stdout.split('\n') if '[' in l and '.go' in l][:2])
sys.exit(0 if ok_all else 1)
