"""Writes the table of planted bugs into DESIGN.md."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set(open(os.path.join(HERE, 'tools', 'first_missed.txt')).read().split())
rows = ['| bug | needs | caught by |', '|---|---|---|']
for name in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    with open(os.path.join(HERE, 'seeded', name, 'meta.json')) as f:
        m = json.load(f)
    rows.append(f"| {name} | {m['needs'].replace('|', '/')} | {m['property']}{' (first missed)' if name in MISSED else ''} |")
path = os.path.join(HERE, 'DESIGN.md')
with open(path) as f:
    s = f.read()
a, b = s.index('<!-- seeded -->'), s.index('<!-- /seeded -->')
with open(path, 'w') as f:
    f.write(s[:a] + '<!-- seeded -->\n' + '\n'.join(rows) + '\n' + s[b:])
