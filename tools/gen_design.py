#!/usr/bin/env python3
"""composes DESIGN.md from design_head.md, the claims, the rules the analyzer reports, seeds and design_tail.md"""
import json,os,re,subprocess,glob,sys
V='/verif'
props={}
for l in open(f'{V}/properties.jsonl'):
    d=json.loads(l); props[d['id']]=d
m=json.load(open(f'{V}/MANIFEST.json'))
claimed={c['property']:c for c in m['checks']}
na={x['property']:x['reason'] for x in m['not_applicable']}
ncase=sum(open(f).read().count('\n=== ')+1 for f in glob.glob(f'{V}/tools/cases/*.txt'))
out=[open(f'{V}/tools/design_head.md').read().replace('NCASES',str(ncase//10*10)),'\n## Properties\n']
why=json.load(open(f'{V}/tools/design_why.json'))
for i in sorted(props):
    p=props[i]
    out.append(f"\n### {i}: {p['title']}\n")
    if i not in claimed:
        out.append(f"Not applicable: {na[i]}.\n"); continue
    c=claimed[i]
    r=subprocess.run(['bash','-c',f'. /opt/vp/env.sh; {V}/bin/favecheck -n -property {i} -v'],capture_output=True,text=True).stdout
    t=c['technique'].split(': ',2)[-1]
    out.append(f"Method: {t}. {c['level_note'].split(' Sound for the paths')[0]}\n")
    if i in why: out.append(why[i]+'\n')
    out.append('Rules (with the number of constructs each was applied to on the current tree):\n')
    for x in re.findall(r'^rule (.*)$',r,re.M): out.append('* '+re.sub(r'^([^:]+):',r'`\1`:',x))
    out.append('')
out.append('\n## Planted bugs\n')
out.append('| seed | property | what it breaks | needs | caught by |\n|---|---|---|---|---|')
caught={}
if os.path.exists(f'{V}/tools/caught.json'): caught=json.load(open(f'{V}/tools/caught.json'))
for d in sorted(glob.glob(f'{V}/seeded/*')):
    s=os.path.basename(d); mt=json.load(open(d+'/meta.json'))
    one=lambda x:' '.join(str(x).split()).replace('|','/')
    out.append(f"| {s} | {mt['property']} | {one(mt['what_it_breaks'])} | {one(mt['needs'])} | {', '.join(caught.get(s,['?'])) or 'nothing'} |")
out.append(open(f'{V}/tools/design_tail.md').read())
open(f'{V}/DESIGN.md','w').write('\n'.join(out))
