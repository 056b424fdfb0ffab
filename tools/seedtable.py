"""Rewrites section 6 of DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(here + '/tools/caught.json'))
rows = []
for m in sorted(glob.glob(here + '/seeded/*/meta.json')):
    i = m.split('/')[-2]; d = json.load(open(m))
    rows.append(f"| {i} | {d['property']} | {d['needs']} | {caught.get(i, 'not run')} |")
t = "## 6 Planted bugs and which checks catch them\n\n| change | breaks | needs | caught by (quick tier) |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
f = here + '/DESIGN.md'; s = open(f).read()
s = re.sub(r'(@@SEEDS@@|## 6 Planted.*?)\n(?=\n## 7)', lambda _: t, s, flags=re.S) if '@@SEEDS@@' not in s else s.replace('@@SEEDS@@', t)
open(f, 'w').write(s)
