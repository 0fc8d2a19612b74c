import json, ast, re, os, glob
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
man=json.load(open('/verif/MANIFEST.json'))
lev={c.get('property_id',c.get('property')):c for c in man['checks']}
reg={}
for l in open('/tmp/regress.txt'):
    m=re.match(r'(C\d\d) \S+ (\d+) obligations, \d+ discharged, ([\d.]+)s',l)
    if m: reg[m[1]]=(m[2],m[3])
head=open('/verif/tools/design/head.md').read(); tail=open('/verif/tools/design/tail.md').read()
out=[head,'\n## 4. Property by property\n']
extra=json.load(open('/verif/tools/design/extra.json'))
for p in props:
    i=p['id']
    if i not in lev: continue
    t=ast.parse(open(f'/verif/checks/{i.lower()}.py').read())
    doc=' '.join((ast.get_docstring(t) or '').split())
    doc=re.sub(r'^C\d\d: *','',doc); doc=doc[0].upper()+doc[1:]
    n,s=reg.get(i,('?','?'))
    out.append(f"### {i} — {p['title']}\n\n*How it is decided.* {doc}\n\n*Oracle and bounds.* {extra[i][0]}\n\n*Beyond the tests.* {extra[i][1]}\n\n*Cost.* {n} obligations, about {s} s (with eight cores busy).\n")
out.append('\n### Not applicable\n')
for p in props:
    if p['id'] in lev: continue
    r=[x['reason'] for x in man['not_applicable'] if x['property']==p['id']][0]
    out.append(f"- **{p['id']} — {p['title']}.** {r}")
out.append('\n')
out.append(tail)
seeds=[]
res=json.load(open('/tmp/seed_results.json')) if os.path.exists('/tmp/seed_results.json') else {}
rows=['\n| planted change | property | what it breaks | needs | caught by |','|---|---|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json')); k=os.path.basename(d[:-1])
    rows.append(f"| {k} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {res.get(k,m['property'])} |")
out.append('\n'.join(rows)+'\n')
open('/verif/DESIGN.md','w').write('\n'.join(out))
