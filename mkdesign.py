"""Writes DESIGN.md: hand-written text below + monitors' docstrings, findings, planted changes."""
import json, os, re, ast, glob
D = os.path.dirname(os.path.abspath(__file__))
import sys
sys.path.insert(0, D)
import findings
props = [json.loads(l) for l in open(os.path.join(D, 'properties.jsonl'))]

HEAD = '''# Runtime monitoring of sfepy

All properties are decided by one technique: the real code of /repo is built from
the current tree, run under generated, hostile and stress workloads, and monitors
watch what it does.  Nothing here looks at the source text of sfepy.

## How a check works

* `setup.sh` only prepares folders; every check builds sfepy itself (`rvm/build.py`:
  the working tree of REPO is copied to `/verif/build/<hash>/` and compiled there,
  incrementally; a second configuration with `-fsanitize=address,undefined` is used by
  C24), so that a check judges the tree it finds and leaves /repo's files alone.
* `rvm/check.py` makes the list of cases of a property module `rvm/p/<ID>.py`
  from the seed and the tier, runs them on 8 worker processes (`rvm/core.py`; a worker
  that dies or hangs is itself an observation), and writes `evidence/<ID>.json`:
  events observed per monitor, distinct situations (signatures), maximal error seen
  per comparison, required events that have to have been seen.  A check that did not
  observe its required events exits with 2 (no verdict), never with 0.
* A *monitor* is an oracle that does not share code with what is observed: own
  topology (`rvm/ref_topo.py`), own isoparametric elements, facets and Gauss rules
  (`rvm/ref_fe.py`), own formulas of the documented integrals (`rvm/formulas.py`),
  own dense linear algebra, difference quotients with an estimate of their own error,
  or a second observation of the same system that has to agree (metamorphic: renumbered,
  rotated, split, repeated, reordered, fresh instead of reused).
* Violations name a replay file: `check.sh <ID> --replay <path>` runs that one case again.
* An exception raised in the real code on valid input is a violation; exceptions in the
  machinery itself are "inconclusive" and listed in the evidence.
* Tolerances are relative to the size of the numbers summed; each comparison records the
  largest error seen, which is 3 or more orders of magnitude below its threshold.

Quick runs take 5 - 60 s each on 8 cores; thorough runs use 5 - 20 times more cases and larger
meshes/orders.  Seeds: VERIF_SEED (or `--seed`) seeds everything.

Why this reaches what the tests do not: the tests of sfepy run single meshes (mostly
regular, one numbering), a few terms with fixed materials, and compare with stored
numbers; the workloads here draw meshes with random vertex numbers, random
orientations, perturbed geometry, several cells kinds, holes, sub-regions,
material kinds, orders, histories of calls - and decide every observation with
an oracle that is right for all of them.

## Limits common to all checks

* Exploration, not proof: what is claimed holds on the observed executions.
* Optional components that are not installed (petsc4py, slepc4py, igakit, oct2py) cannot be observed.
* One numerical configuration (this compiler, numpy, scipy).

'''

NOTES = findings.DESIGN_NOTES
out = [HEAD, '## Properties\n']
def doc(p):
    s = open(p).read().split('"""')[1].strip()
    return re.sub(r'^C\d+: [^\n]*\n+', '', s)
def consts(p):
    t = ast.parse(open(p).read()); r = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('REQUIRED', 'ASSUMPTIONS'):
            try:
                r[n.targets[0].id] = ast.literal_eval(n.value)
            except Exception:
                pass
    return r
seeds = {}
for f in sorted(glob.glob(os.path.join(D, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f)); seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
for p in props:
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    path = os.path.join(D, 'rvm', 'p', i + '.py')
    if os.path.exists(path):
        out.append(doc(path) + '\n')
        c = consts(path)
        if c.get('REQUIRED'):
            out.append('Events that have to be observed: ' + ', '.join(c['REQUIRED']) + '.\n')
        if c.get('ASSUMPTIONS'):
            out.append('Bounds and assumptions: ' + '; '.join(c['ASSUMPTIONS']) + '.\n')
    else:
        out.append('Not built yet (listed as not applicable for the time being). ' + '\n')
    for n in NOTES.get(i, []):
        out.append('* ' + n)
    fx = [(s, w) for s, (q, w) in findings.FIXES.items() if i in q]
    if fx:
        out.append('\nDefects found by this check and repaired ("fix:" commits):\n')
        out += ['* %s (%s)' % (w, s) for s, w in fx]
    kn = [k for k in findings.KNOWN if k['property'] == i]
    if kn:
        out.append('\nKnown findings (not repaired):\n')
        out += ['* %s: %s' % (k['id'], k['what']) for k in kn]
    if i in seeds:
        out.append('\nPlanted changes (seeded/):\n')
        out += ['* %s - %s; needs %s: **%s**' % (n, m['what_it_breaks'], m['needs'],
                findings.SEEDS.get(n, 'caught')) for n, m in seeds[i]]
    out.append('')
open(os.path.join(D, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
print('DESIGN.md', sum(len(s) for s in out))
