"""Writes MANIFEST.json from properties.jsonl and the existing rvm/p modules."""
import json, os, re
D = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(D, 'properties.jsonl'))]
TECH = {
    'C24': 'address/undefined-behaviour sanitizers and uninitialised-memory monitors on the compiled kernels under stress workloads',
}
checks, na = [], []
for p in props:
    i = p['id']
    path = os.path.join(D, 'rvm', 'p', i + '.py')
    if os.path.exists(path):
        doc = open(path).read().split('"""')[1].strip()
        m = re.search(r'Monitor:(.*)', doc, re.S)
        note = ' '.join((m.group(1) if m else doc).split())[:900]
        checks.append(dict(
            property=i, quick_cmd='bash check.sh %s --tier quick' % i,
            thorough_cmd='bash check.sh %s --tier thorough' % i,
            technique=TECH.get(i, 'runtime monitoring: reference-model monitors on the real code under generated, hostile and stress workloads'),
            level='exploration', level_note=note))
    else:
        na.append(dict(property=i, reason='not built yet'))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na),
          open(os.path.join(D, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
