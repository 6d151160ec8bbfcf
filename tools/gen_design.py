"""Rewrites the two generated lists of DESIGN.md: recorded findings and planted bugs."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = json.load(open(f'{root}/known_findings.json'))
findings = ''.join(f"* {f['property']} `{f['id']}`: {f['what']}.\n" for f in k['findings'])
seeds = "| planted bug | caught by | needs | breaks |\n|---|---|---|---|\n"
for p in sorted(glob.glob(f'{root}/seeded/*/meta.json')):
    d = json.load(open(p))
    seeds += f"| {p.split('/')[-2]} | {d['property']} | {d['needs']} | {d['what_it_breaks']} |\n"
p = f'{root}/DESIGN.md'
t = open(p).read()
for name, text in ('findings', findings), ('seeds', seeds):
    t = re.sub(f'<!-- {name} -->\n.*?<!-- end -->', lambda m: f'<!-- {name} -->\n{text}<!-- end -->', t, flags=re.S)
open(p, 'w').write(t)
