# DESIGN.md = head + per property + planted bugs (from seeded/*/meta.json and tools/caught.txt) + tail
import json, glob, os
os.chdir('/verif')
caught = {}
if os.path.exists('tools/caught.txt'):
    for l in open('tools/caught.txt'):
        a = l.split()
        if len(a) > 2: caught[a[0]] = (a[1], 'rc=1' in l)
out = open('tools/design_head.md').read() + open('tools/design_props.md').read()
out += "## Planted bugs and which check catches them\n\n| planted bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"
for d in sorted(glob.glob('seeded/*/meta.json')):
    n = d.split('/')[1]; m = json.load(open(d))
    c = caught.get(n)
    by = (c[0] + ' (quick)') if c and c[1] else ('MISSED' if c else 'not run yet')
    out += f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {by} |\n"
out += open('tools/design_tail.md').read()
open('DESIGN.md', 'w').write(out)
