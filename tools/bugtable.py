"""Rewrite the table of planted bugs in DESIGN.md from seeded/ (the notes on
which were missed at first stay)."""
import json
import os
import re

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
text = open('DESIGN.md').read()
star = set(re.findall(r'([a-z][a-z-]+)\*', text))
new = set(os.environ.get('STAR', '').split())
by = {}
for i in sorted(os.listdir('seeded')):
    p = json.load(open('seeded/%s/meta.json' % i))['property']
    by.setdefault(p, []).append(i + ('*' if i in star | new else ''))
rows = '\n'.join('| %s | %s |' % (p, ', '.join(by[p])) for p in sorted(by))
i = text.index('\n|----|----|\n') + len('\n|----|----|\n')
j = text.index('\n\n', i)
open('DESIGN.md', 'w').write(text[:i] + rows + text[j:])
