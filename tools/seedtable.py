"""Writes the table of planted bugs (seeded/*/meta.json) into section 7 of DESIGN.md. Not used by any check."""
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST_MISSED = set(open(os.path.join(ROOT, 'tools', 'first_missed.txt')).read().split())


def main():
    rows = ['| bug | needs | breaks | quick check |', '|---|---|---|---|']
    for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        m = json.load(open(d))
        i = os.path.basename(os.path.dirname(d))
        clean = lambda s: re.sub(r'\s+', ' ', s).replace('|', '/')
        rows.append('| %s | %s | %s | %s %s |' % (i, clean(m['needs']), clean(m['what_it_breaks']), m['property'], 'caught (first missed)' if i in FIRST_MISSED else 'caught'))
    p = os.path.join(ROOT, 'DESIGN.md')
    s = open(p).read()
    a, b = '<!-- seeded -->', '<!-- /seeded -->'
    i, j = s.index(a) + len(a), s.index(b)
    open(p, 'w').write(s[:i] + '\n' + '\n'.join(rows) + '\n' + s[j:])


if __name__ == '__main__':
    main()
