"""seed(id, property, edits, demo, needs, what): write seeded/<id>/."""
import os, subprocess, json, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property held for this input; nonzero: it is broken
here="$(cd "$(dirname "$0")" && pwd)"
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export HOME="$W" PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
cd "$W" || exit 99
exec_py() { /opt/venv/bin/python -W ignore "$here/demo.py"; }
exec_py
'''
def seed(id, prop, edits, demo, needs, what):
    for f, old, new in edits:
        p = os.path.join(os.environ.get('SEEDREPO', '/repo'), f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    d = subprocess.run(['git', '-C', os.environ.get('SEEDREPO', '/repo'), 'diff'], capture_output=True, text=True).stdout
    subprocess.run(['git', '-C', os.environ.get('SEEDREPO', '/repo'), 'checkout', '-q', '--', '.'], check=True)
    o = os.path.join(V, 'seeded', id)
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(d)
    open(o + '/demo.sh', 'w').write(DEMO)
    open(o + '/demo.py', 'w').write(demo.lstrip('\n'))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what),
              open(o + '/meta.json', 'w'), indent=1)
    print(id, len(d.splitlines()))
