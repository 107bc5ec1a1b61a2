"""writes DESIGN.md: tools/design_head.md, one section per property (contracts, planted bugs, fixes), tools/design_tail.md"""
import json, ast, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
text = json.load(open('tools/design_text.json'))
props = [json.loads(l) for l in open('properties.jsonl')]
kf = json.load(open('known_findings.json'))
na = {x['property']: x['reason'] for x in json.load(open('MANIFEST.json'))['not_applicable']}
seeds = {}
for d in sorted(os.listdir('seeded')):
    m = json.load(open('seeded/%s/meta.json' % d))
    seeds.setdefault(m['property'], []).append((d, m))
out = ["## Properties\n"]
for p in props:
    i = p['id']
    out.append("### %s %s\n" % (i, p['title']))
    f = 'contracts/%s.py' % i
    if i in na:
        out.append("Not applicable: %s.\n" % na[i])
        continue
    t = ast.parse(open(f).read())
    names = [s.name for s in t.body if isinstance(s, ast.FunctionDef) and s.name.startswith('c_')]
    b = {}
    for s in t.body:
        if isinstance(s, ast.Assign) and s.targets[0].id == 'BOUNDED':
            b = ast.literal_eval(s.value)
    out.append(text[i] + "\n")
    out.append("Contracts proved: %s.\n" % ', '.join('`%s`' % n for n in names if n not in b))
    if b:
        out.append("Bounded (executed on drawn inputs only, not proved): %s.\n" % '; '.join('`%s` (%s)' % x for x in b.items()))
    if seeds.get(i):
        out.append("Planted bugs caught by `./check.sh %s`, each with a failing input: %s.\n"
                   % (i, '; '.join('`%s` (%s)' % (d, m['what_it_breaks'].rstrip('.')) for d, m in seeds[i])))
    fx = [x.split(' ', 2)[2] for x in kf['fixed'] if x.startswith('fixed: property=%s ' % i)]
    if fx:
        out.append("Genuine defects repaired (commit, what failed): %s.\n" % '; '.join(fx))
open('DESIGN.md', 'w').write(open('tools/design_head.md').read() + '\n'.join(out) + '\n' + open('tools/design_tail.md').read())
