"""tools/assemble.py: DESIGN.md = hand-written parts + the table of planted bugs (from seeded/*/meta.json and seeded results)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.path.join(V, 'tools', 'seed_results.txt')
out = ''.join(open(os.path.join(V, 'tools', f)).read().rstrip('\n') + '\n' for f in ('design_head.md', 'design_body.md', 'design_defects.md'))
res = {}
if os.path.exists(R):
    for l in open(R):
        if ': demo' in l:
            i, rest = l.split(':', 1)
            res[i] = rest.split('caught-by:')[1].split('(property')[0].split()
out += '\n## 7. Planted bugs\n\nEach folder of `seeded/` holds a patch, a demonstration and what it needs to manifest; `tools/seed.sh ID...` confirms it in a\nscratch copy (demo passes before, fails after, the baseline tests pass) and lists the checks that report it.\n\n'
out += '| planted bug | property | what it breaks | reported by |\n|---|---|---|---|\n'
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    out += f"| {d} | {m['property']} | {m['what_it_breaks']} | {' '.join(res.get(d, ['?'])) or 'missed'} |\n"
f = os.path.join(V, 'tools', 'design_tail.md')
if os.path.exists(f):
    out += '\n' + open(f).read()
open(os.path.join(V, 'DESIGN.md'), 'w').write(out)
