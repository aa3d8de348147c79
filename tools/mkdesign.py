import json,os,glob
V='/verif'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
head = open('/verif/tools/design_head.md').read()
tail = open('/verif/tools/design_tail.md').read()
rows=[]
per=json.load(open('/verif/tools/design_props.json'))
out=[head,'\n## 5. Per property\n']
for p in props:
    d=per[p['id']]
    out.append('### %s %s\n'%(p['id'],p['title']))
    for k,lab in (('spec','Specified'),('gen','Generated'),('oracle','Oracle'),('bounds','Bounds and cost'),('why','Why the tests cannot'),('catch','Planted bugs caught')):
        v=d.get(k)
        if k=='why': v=v or p['why_tests_cant']
        if k=='catch':
            ids=sorted(os.path.basename(x) for x in glob.glob(V+'/seeded/'+p['id']+'-*'))
            v=', '.join('`%s`'%i for i in ids) if ids else None
        if v: out.append('- *%s.* %s'%(lab,v))
    out.append('')
out.append(tail)
open(V+'/DESIGN.md','w').write('\n'.join(out))
