#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the harnesses present."""
import json, os, re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(V,'properties.jsonl'))]
NA={'C35':"the accuracy of dense factorizations, sparse direct solves and graph partitions lives in LAPACK, UMFPACK and METIS (binary kernels outside this repository) and in floating-point rounding; neither can be encoded for the solver, which here reasons about the repository's own code over exact reals"}
checks=[];na=[]
for p in props:
    i=p['id']; h=os.path.join(V,'harness',i.lower()+'.cpp')
    if i in NA and not os.path.exists(h): na.append({'property':i,'reason':NA[i]}); continue
    if not os.path.exists(h): na.append({'property':i,'reason':'check not built yet'}); continue
    b=re.findall(r'^//@ bounds (.*)$',open(h).read(),re.M)
    o=re.findall(r'^//@ outside (.*)$',open(h).read(),re.M)
    a=re.findall(r'^//@ assume (.*)$',open(h).read(),re.M)
    c={'property':i,'quick_cmd':'python3 driver/check.py %s --tier quick'%i,'thorough_cmd':'python3 driver/check.py %s --tier thorough'%i,
       'technique':'symbolic execution of the compiled LLVM IR, assertions decided by Z3, counterexamples replayed natively',
       'level':'model_checking','level_note':('Within: '+'; '.join(b)+'. Outside: '+'; '.join(o or ['larger sizes'])+'. Assumed: '+'; '.join(a+['double arithmetic as exact reals'])+'.')}
    checks.append(c)
json.dump({'version':1,'setup_cmd':'python3 driver/check.py --setup','checks':checks,'not_applicable':na},open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
print(len(checks),'checks',len(na),'n/a')
