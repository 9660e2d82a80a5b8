#!/usr/bin/env python3
"""mut.py FILE...: each file holds cases: lines '=== name PROP[,PROP..] viol|quiet' then '@@ path', OLD, '---', NEW, '+++'.
Applies each to a scratch copy of /repo, builds, runs the analyzer, compares with the expectation.
A quiet case is run against every claimed property (and those it names)."""
import subprocess, sys, os, json
from concurrent.futures import ThreadPoolExecutor
import queue
N=int(os.environ.get('JOBS','6'))
only=os.environ.get('ONLY'); props=os.environ.get('PROPS')
claimed=[c['property'] for c in json.load(open('/verif/MANIFEST.json')).get('checks',[])]
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def parse(f):
    cases=[];cur=None;mode=None
    for l in open(f).read().split('\n'):
        if l.startswith('=== '):
            n=l.split()
            cur={'name':n[1],'prop':n[2],'exp':n[3],'edits':[]}; cases.append(cur)
        elif l.startswith('@@ '):
            cur['edits'].append([l[3:].strip(),[],[]]); mode=1
        elif l=='---': mode=2
        elif l=='+++': mode=1; cur['edits'].append([cur['edits'][-1][0],[],[]])
        elif cur and cur['edits']: cur['edits'][-1][mode].append(l)
    return cases
BASE=os.environ.get('BASE','/tmp/m'); BIN=os.environ.get('BIN','/verif/bin/favecheck')
assert BASE.startswith('/tmp/') and '..' not in BASE
os.makedirs(BASE,exist_ok=True)
def git(d,*a):
    # only ever in a scratch copy with a repository of its own
    assert d.startswith(BASE+'/') and os.path.isdir(d+'/.git'), d
    subprocess.run(['git','-C',d,*a],check=True,capture_output=True)
def clean(d): git(d,'checkout','-q','--','.'); git(d,'clean','-fdq')
Q=queue.Queue()
for i in range(N):
    SC=f'{BASE}/mrepo{i}'
    if not os.path.exists(SC): subprocess.run(['cp','-a','/repo',SC],check=True)
    clean(SC); git(SC,'fetch','-q','/repo','HEAD'); git(SC,'reset','-q','--hard','FETCH_HEAD')
    Q.put(i)
def run(c):
    out=[];bad=0
    i=Q.get(); SC=f'{BASE}/mrepo{i}'
    try:
        clean(SC)
        for path,old,new in c['edits']:
            p=os.path.join(SC,path)
            o='\n'.join(old).strip('\n'); n='\n'.join(new).strip('\n')
            if not o: continue
            if o=='NEWFILE': open(p,'w').write(n); continue
            s=open(p).read()
            if s.count(o)<1: return [f"NOMATCH {c['name']} {path} {o[:60]!r}"],1
            s=s.replace(o,n,1); open(p,'w').write(s)
        b=sh(f'. /opt/vp/env.sh; cd {SC} && go build ./... 2>&1 | head -5')
        if b.stdout.strip(): return [f"NOBUILD {c['name']} {b.stdout}"],1
        ps=c['prop'].split(',')
        if c['exp']=='quiet': ps=sorted(set([x for x in ps if x!='ALL']+claimed))
        if props: ps=[x for x in ps if x in props.split(',')]
        for prop in ps:
            try: r=sh(f'. /opt/vp/env.sh; mkdir -p {BASE}/mverif{i}; cp /verif/known_findings.txt {BASE}/mverif{i}/; FAVE_REPO={SC} FAVE_VERIF={BASE}/mverif{i} {BIN} -n -property {prop}',timeout=300)
            except subprocess.TimeoutExpired:
                out.append(f"TIMEOUT {c['name']} {prop}"); bad+=1; continue
            v='VIOLATION property=' in r.stdout
            want=c['exp']=='viol'
            if r.returncode not in (0,1): out.append(f"CRASH {c['name']} {prop} {r.returncode} {r.stderr[-800:]}"); bad+=1; continue
            tag='ok  ' if v==want else 'MISS' if want else 'FALSE'
            if v!=want: bad+=1
            what=[l for l in r.stdout.split('\n') if '[' in l and ': ' in l][:4]
            if v!=want or os.environ.get('V') or c['exp']=='viol':
                out.append(f"{tag} {c['name']} {prop} {'viol' if v else 'quiet'}"+(('\n      '+'\n      '.join(x[:260] for x in what)) if (v!=want or os.environ.get('V')) else ''))
        if c['exp']=='quiet' and not bad: out.append(f"ok   {c['name']} quiet x{len(ps)}")
        if os.environ.get('KEEP'):
            sh(f'rm -rf /tmp/mkeep && cp -a {SC} /tmp/mkeep')
    finally:
        clean(SC); Q.put(i)
    return out,bad
cases=[c for f in sys.argv[1:] for c in parse(f) if not only or any(o in c['name'] for o in only.split(','))]
total=0
with ThreadPoolExecutor(N) as ex:
    for o,b in ex.map(run,cases):
        for l in o: print(l,flush=True)
        total+=b
print('problems:',total)
