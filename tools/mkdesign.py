"""Refresh the generated parts of DESIGN.md: table of fixed defects and table of planted bugs.
tools/seed_results.json holds the last confirmation of every planted bug (tools/seedconfirm logs)."""
import json, os, re
V = os.environ.get('V', '/verif')
d = open(V + '/DESIGN.md').read()
def part(name, text):
    global d
    a, b = '<!-- %s -->' % name, '<!-- /%s -->' % name
    i, j = d.index(a) + len(a), d.index(b)
    d = d[:i] + '\n' + text + '\n' + d[j:]
k = json.load(open(V + '/known_findings.json'))['findings']
part('fixed', '\n'.join('* %s `%s` %s' % (f['property'], f['commit'], f['what']) for f in k if f['status'] == 'fixed'))
res = json.load(open(V + '/tools/seed_results.json'))
rows = ['| planted bug | needs | breaks | caught by |', '|---|---|---|---|']
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/' + s + '/meta.json'))
    rows.append('| %s | %s | %s | %s |' % (s, m['needs'], m['what_it_breaks'], res.get(s, 'not confirmed yet')))
part('seeds', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(d)
