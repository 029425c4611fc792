import json,re,sys
sys.path[:0]=['/verif/engine','/verif/checks']
import registry
from tasks import Pair
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
HEAD=open('/verif/tools/design/head.md').read()
BUG={}
import os
for n in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%n)); BUG.setdefault(m['property'],[]).append((n,m))
NOTE=json.load(open('/verif/tools/design/notes.json'))
out=[HEAD,'## 5. Per property\n']
out.append('"E:" lists the functions whose closed form is compared with its definition in `spec/` (all regions, calls, returns); "E/":\nonly the obligations matching the filter; "R:" is a path/effect rule of section 3.\n')
for p in P:
    i=p['id']
    if i in registry.DECLINED: continue
    full=[o.name.replace('equal:','') for o,f in registry.PROPS[i] if isinstance(o,Pair) and not f]
    filt={}
    for o,f in registry.PROPS[i]:
        if isinstance(o,Pair) and f: filt.setdefault(f,[]).append(o.name.replace('equal:',''))
    rl=[o.name for o,f in registry.PROPS[i] if not isinstance(o,Pair)]
    s='* **%s %s.** '%(i,p['title'])
    if full: s+='E: '+', '.join(full)+'. '
    for f,ns in filt.items(): s+='E/`%s`: %s. '%(f,', '.join(ns))
    if rl: s+='R: '+'; '.join(rl)+'. '
    s+=NOTE.get(i,'')
    if i in BUG: s+=' Planted: '+', '.join(n for n,_ in BUG[i])+'.'
    out.append(s)
out.append('\n## 6. Not applicable\n')
for i,t in registry.DECLINED.items(): out.append('* **%s** %s.'%(i,t))
out.append(open('/verif/tools/design/tail.md').read())
open('/verif/DESIGN.md','w').write('\n'.join(out)+'\n')
