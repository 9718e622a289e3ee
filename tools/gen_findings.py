#!/usr/bin/env python3
"""Regenerate KNOWN_FINDINGS.jsonl: the fix: commits of /repo with the property each restores (and unrepaired findings, none so far)."""
import subprocess,json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FX=[l.split('|') for l in open(os.path.join(V,'tools','fixes.txt')).read().strip().split('\n')]
log={l.split(' ',1)[1]:l.split(' ',1)[0] for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s']).decode().strip().split('\n')}
out=[]
for subj,prop,what in FX:
    h=log['fix: '+subj]; out.append({'status':'fixed','property':prop,'commit':h,'what':what,'text':'fixed: property=%s %s %s'%(prop,h,what)})
miss=[s for s in log if s.startswith('fix: ') and s[5:] not in [f[0] for f in FX]]
assert not miss,miss
open(os.path.join(V,'KNOWN_FINDINGS.jsonl'),'w').write(''.join(json.dumps(o)+'\n' for o in out)); print(len(out))
