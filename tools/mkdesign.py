import sys,json,importlib,warnings,os
warnings.simplefilter('ignore'); sys.path.insert(0,'/verif'); os.chdir('/verif')
props=[json.loads(l) for l in open('properties.jsonl')]
notes=json.load(open('/verif/tools/design/notes.json'))
man=json.load(open('MANIFEST.json'))
na={x['property'] if 'property' in x else x['id']:x['reason'] for x in man['not_applicable']}
out=[open('/verif/tools/design/head.md').read()]
for p in props:
    i=p['id']
    if i in na: continue
    ev=json.load(open('evidence/%s.json'%i))
    c=ev['coverage']
    out.append('### %s %s\n'%(i,p['title']))
    out.append(notes[i]+'\n')
    out.append('Obligations decided: %s; cost about %.0f s with the machine loaded.\n'%(c.get('obligations'),ev['wall_s']))
out.append(open('/verif/tools/design/tail.md').read())

for d in sorted(os.listdir('seeded')):
    m=json.load(open('seeded/%s/meta.json'%d))
    out.append('* `%s` (%s): %s Needs: %s - %s.'%(d,m['property'],m['what_it_breaks'].rstrip('.')+'.',m['needs'].rstrip('.'),'not caught' if m.get('missed') else 'caught by the check of '+m['property']))
open('/verif/DESIGN.md','w').write('\n'.join(out))
