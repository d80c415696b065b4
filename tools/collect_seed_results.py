"""collect seedconfirm logs (arguments, oldest first) into tools/seed_results.json"""
import sys, re, json, os
V = '/verif'; p = V + '/tools/seed_results.json'
r = json.load(open(p)) if os.path.exists(p) else {}
for f in sys.argv[1:]:
    for l in open(f, errors='replace'):
        m = re.match(r'(C\d\d-\S+) check (C\d\d) rc=(\d+) (\w+) ?(.*)', l)
        if m:
            s, c, rc, v, t = m.groups()
            if v == 'CAUGHT':
                g = re.match(r'violated: \[([^\]]*)\] *(\S*)', t)
                r[s] = c + (' (`%s`)' % g.group(1).replace('|', '/')[:60] if g else '')
            else:
                r.setdefault(s, 'missed by ' + c)
json.dump(r, open(p, 'w'), indent=1, sort_keys=True)
print(len(r))
for s in sorted(os.listdir(V + '/seeded')):
    if s not in r or 'missed' in r[s]: print('no:', s, r.get(s))
