"""Refresh the generated parts of DESIGN.md: the columns n (obligations) and s (seconds) of section 3 from evidence/, and the table of section 7
from seeded/*/meta.json and tools/seeded_results.json (bug -> what the check reported)."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(R + '/DESIGN.md').read()


def row(m):
    pid, rest = m.group(1), m.group(2)
    p = R + '/evidence/%s.json' % pid
    if not os.path.exists(p):
        return m.group(0)
    e = json.load(open(p))
    cols = rest.rstrip().rstrip('|').rstrip().split(' | ')
    cols[-2:] = [str(e['coverage']['discharged']), '%.0f' % e['wall_s']]
    return '| %s | %s |' % (pid, ' | '.join(cols))


s = re.sub(r'^\| (C\d\d) \| (.*)$', row, s, flags=re.M)
res = json.load(open(R + '/tools/seeded_results.json')) if os.path.exists(R + '/tools/seeded_results.json') else {}
t = ['| bug | property | needs | reported as |', '|----|----|----|----|']
for d in sorted(os.listdir(R + '/seeded'), key=lambda d: (json.load(open(R + '/seeded/%s/meta.json' % d))['property'], d)):
    m = json.load(open(R + '/seeded/%s/meta.json' % d))
    t.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), res.get(d, 'not run')))
head, tail = s.split('<!-- seeded -->')[0], s.split('<!-- /seeded -->')[1] if '<!-- /seeded -->' in s else '\n'
s = head + '<!-- seeded -->\n' + '\n'.join(t) + '\n<!-- /seeded -->' + tail
open(R + '/DESIGN.md', 'w').write(s)
