#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md (per-property table) from the harness headers; run after changing a harness."""
import re,os,json
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(R+'/tools/oracles.py').read())
out=[open(R+'/tools/design_head.md').read().rstrip(),'','## Per property','',
 'Bounds, assumptions and stubs below are copied from the harness headers by `tools/design.py`. Every harness of a property explores all values within',
 'its bounds when the evidence says `complete`; times are the quick/thorough budgets in seconds.','']
for l in open(R+'/properties.jsonl'):
    d=json.loads(l); p=d['id']; src=open(R+'/harness/%s.cpp'%p).read()
    out.append('### %s %s'%(p,d['title']))
    a,o=ORACLE[p]
    out.append('Code: %s. Oracle: %s.'%(a,o))
    hs=re.findall(r'^// @harness (\S+) quick=(\d+) thorough=(\d+)',src,re.M)
    out.append('Harnesses: '+', '.join('%s (%s/%s)'%h for h in hs)+'.')
    for k,n in (('bounds','Bounds'),('assume','Assumed'),('stub','Stand-in')):
        for t in re.findall(r'^// @%s (.*)$'%k,src,re.M): out.append('- %s: %s'%(n,t.strip()))
    out.append('')
sd={}
for d in sorted(os.listdir(R+'/seeded')) if os.path.isdir(R+'/seeded') else []: sd.setdefault(json.load(open(R+'/seeded/%s/meta.json'%d))['property'],[]).append(d)
seeds='each is caught by the quick check of its property: '+'; '.join('%s %s'%(k,', '.join(v)) for k,v in sorted(sd.items()))
out.append(open(R+'/tools/design_tail.md').read().rstrip().replace('@SEEDS@',seeds))
open(R+'/DESIGN.md','w').write('\n'.join(out)+'\n')
