"""fills the generated lists of DESIGN.md (between the markers) from known_findings.json and seeded/"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/DESIGN.md').read()
k = json.load(open(V + '/known_findings.json'))
fx = ''.join('* %s\n' % re.sub(r'^fixed: property=(C\d+) (\w+) ', r'**\1** (`\2`): ', x) for x in k['fixed'])
fx += ''.join('* known finding, not repaired: **%s** %s\n' % (x['property'], x['what']) for x in k.get('findings', []))
rows = '| planted bug | needs | breaks | caught by |\n|---|---|---|---|\n'
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % d))
    rows += '| %s | %s | %s | `./check %s` |\n' % (d, m['needs'], m['what_it_breaks'], m['property'])
def put(s, tag, txt):
    a, b = '<!-- %s -->' % tag, '<!-- /%s -->' % tag
    if a not in s: s = s.replace('\n%s\n' % tag, '\n%s\n%s\n%s\n' % (a, '', b), 1)
    i, j = s.index(a) + len(a), s.index(b)
    return s[:i] + '\n' + txt + s[j:]
s = put(put(s, 'FIXES', fx), 'SEEDS', rows)
open(V + '/DESIGN.md', 'w').write(s)
