"""
Write known_findings.json: the "fixed" entries come from the "fix:" commits of
/repo (FIXES maps their subjects to properties), the known ones from KNOWN.
"""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from findings import FIXES, KNOWN

here = os.path.dirname(os.path.abspath(__file__))
log = subprocess.run(['git', '-C', os.environ.get('RVM_REPO', '/repo'), 'log',
                      '--reverse', '--format=%h %s'], capture_output=True,
                     text=True, check=True).stdout.splitlines()
out = []
left = dict(FIXES)
for line in log:
    h, s = line.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    pid, what = left.pop(s[5:])
    out.append(dict(id='fixed-' + h, property=pid, status='fixed',
                    entry='fixed: property=%s %s %s' % (pid, h, what)))
assert not left, left
for k in KNOWN:
    out.append(dict(k, status='known'))
with open(os.path.join(here, 'known_findings.json'), 'w') as f:
    json.dump(dict(findings=out), f, indent=1)
    f.write('\n')
print(len(out), 'findings')
