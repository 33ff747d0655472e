"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(root + '/DESIGN.md').read()
old = dict(re.findall(r'^\| ([\w-]+) \| .* \| P\d+ \((.*)\) \|$', s, re.M))
old.update(json.load(open(root + '/tools/seednotes.json')))
head = '| seed | what it breaks | caught by |\n|---|---|---|\n'
i = s.index(head) + len(head)
rows = []
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    d = json.load(open(f)); id = f.split('/')[-2]
    rows.append(f"| {id} | {d['what_it_breaks']} | {d['property']}" + (f" ({old[id]})" if id in old else '') + ' |\n')
rest = re.sub(r'\A(\|.*\n)*', '', s[i:])
open(root + '/DESIGN.md', 'w').write(s[:i] + ''.join(rows) + rest)
