"""DESIGN.md = DESIGN.head.md + the list of contracts (python3-vt tools/design.py)"""
import os
import sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.setrecursionlimit(20000)
import check

by = {}
for c in check.load().values():
    for p in c.props:
        by.setdefault(p, {}).setdefault(c.name.split('#')[0].replace('funpy.', '', 1), []).append(c.name.partition('#')[2])
out = [open(os.path.join(here, 'DESIGN.head.md')).read().rstrip(), '', '## 5. Functions under contract', '',
       'Generated by `tools/design.py`. A function with several cases has one contract per case (number in brackets).', '']
for p in sorted(by):
    fs = by[p]
    out.append('**%s** (%d functions, %d contracts): %s' % (p, len(fs), sum(map(len, fs.values())), ', '.join('`%s`%s' % (f, ' (%d)' % len(v) if len(v) > 1 else '') for f, v in sorted(fs.items()))))
    out.append('')
open(os.path.join(here, 'DESIGN.md'), 'w').write('\n'.join(out))
