"""Generate seeded/<id>/ from the specifications in tools/seeds/*.py (patches are made against /repo's HEAD)."""
import os, sys, json, glob, subprocess, shutil, tempfile
V = '/verif'
I = 'include/boost/accumulators/'
SEEDS = {}
DEMO_SH = '''#!/bin/bash
# exit 0: behaves as promised; nonzero: broken.  Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
g++ -std=gnu++17 -w -O1 %(flags)s -I"$PWD/include" "$here/demo.cpp" -o "$tmp/demo" %(libs)s || exit 4
cd "$tmp" && timeout 120 ./demo
'''
def seed(id, prop, edits, demo, needs, breaks, flags='', libs=''):
    assert id not in SEEDS, id
    SEEDS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags, libs=libs)
def main():
    for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
        exec(compile(open(f).read(), f, 'exec'), dict(seed=seed, I=I, S=I + 'statistics/', F=I + 'framework/', N=I + 'numeric/', A=I + 'framework/accumulators/'))
    only = sys.argv[1:]
    for id, s in SEEDS.items():
        if only and id not in only: continue
        d = V + '/seeded/' + id
        os.makedirs(d, exist_ok=True)
        t = tempfile.mkdtemp()
        out = ''
        files = {}
        for path, old, new in s['edits']:
            if path not in files:
                files[path] = [subprocess.check_output(['git', '-C', '/repo', 'show', 'HEAD:' + path], text=True)] * 2
            a, b = files[path]
            if b.count(old) != 1: sys.exit('%s: %d matches in %s of %r' % (id, b.count(old), path, old))
            files[path] = [a, b.replace(old, new)]
        for path, (a, b) in files.items():
            for k, c in (('a', a), ('b', b)):
                os.makedirs(os.path.dirname(os.path.join(t, k, path)), exist_ok=True)
                open(os.path.join(t, k, path), 'w').write(c)
            r = subprocess.run(['diff', '-u', 'a/' + path, 'b/' + path], cwd=t, stdout=subprocess.PIPE, text=True)
            lines = r.stdout.split('\n')
            lines[0] = '--- a/' + path; lines[1] = '+++ b/' + path
            out += 'diff --git a/%s b/%s\n' % (path, path) + '\n'.join(lines)
        shutil.rmtree(t)
        open(d + '/patch.diff', 'w').write(out)
        open(d + '/demo.cpp', 'w').write(s['demo'].lstrip())
        open(d + '/demo.sh', 'w').write(DEMO_SH % dict(flags=s['flags'], libs=s['libs']))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    print(len(SEEDS))
main()
