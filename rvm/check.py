"""
python -m rvm.check C01 [--tier quick|thorough] [--seed N] [--replay FILE]
                        [--only KIND] [--nproc N] [--verbose]
"""
import os, sys, json, time, argparse, hashlib, importlib, shutil
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def load_known(pid):
    try:
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            data = json.load(f)
    except OSError:
        return []
    return [d for d in data['findings'] if d['property'] == pid
            and d['status'] == 'known']

def matches(entry, case, vio):
    """A known finding is identified by the monitor that fires and the
    mechanism: exact values of named case parameters / a marker in the text."""
    mon = entry['monitor']
    if vio['kind'] not in (mon if isinstance(mon, list) else [mon]):
        return False
    for k, v in entry.get('case', {}).items():
        if isinstance(v, list):
            if case.get(k) not in v:
                return False
        elif case.get(k) != v:
            return False
    for s in entry.get('contains', []):
        if s not in vio['msg']:
            return False
    return True

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--case', type=int)
    ap.add_argument('--nproc', type=int, default=int(os.environ.get('RVM_NPROC', 8)))
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--list', action='store_true')
    o = ap.parse_args()
    t0 = time.time()
    from . import boot, core
    mod0 = os.path.join(VERIF, 'rvm', 'p', o.prop + '.py')
    if not os.path.exists(mod0):
        print('no such property', o.prop)
        return 3
    try:
        scratch = boot.boot('plain')
    except Exception as exc:
        print('error: cannot build or import the code: %s' % exc)
        return 3
    module = importlib.import_module('rvm.p.' + o.prop)
    if o.replay:
        with open(o.replay) as f:
            rep = json.load(f)
        cases = [rep['case']]
    else:
        rng = np.random.RandomState(o.seed)
        cases = module.cases(rng, o.tier)
        for i, c in enumerate(cases):
            c.setdefault('seed', (o.seed * 1000003 + i * 7919) % (2**31))
        if o.only:
            cases = [c for c in cases if c['kind'] in o.only.split(',')]
        if o.case is not None:
            cases = [cases[o.case]]
    if o.list:
        for i, c in enumerate(cases):
            print(i, json.dumps(core.jsonable(c)))
        return 0
    if hasattr(module, 'prepare'):
        module.prepare(o.tier)
    limit = 780.0 if o.tier == 'quick' else float(os.environ.get('RVM_THOROUGH_S', 3400))
    results = core.run_pool(module, cases, nproc=o.nproc,
                            cpu_limit=getattr(module, 'CPU_LIMIT', 240.0),
                            wall_limit=600.0 if o.tier == 'quick' else 1800.0,
                            deadline=t0 + limit - 60, logdir=scratch)
    if hasattr(module, 'finish'):
        extra = module.finish(cases, results)   # cross-case oracles
        for i, v in extra:
            results[i]['violations'].append(v)
    events, maxerr, sigs = {}, {}, set()
    nontrivial, n_run, n_not_run = set(), 0, 0
    viols, incon, percost = [], [], {}
    for i, (c, r) in enumerate(zip(cases, results)):
        if r is None:
            n_not_run += 1
            continue
        n_run += 1
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        for k, v in r['maxerr'].items():
            maxerr[k] = max(maxerr.get(k, 0), v)
        if sum(r['events'].values()) > 0:
            cc = {k: v for k, v in c.items() if k not in ('cost',)}
            nontrivial.add(hashlib.md5(json.dumps(core.jsonable(cc), sort_keys=True)
                                       .encode()).hexdigest())
        sigs.update(r['sigs'])
        percost.setdefault(c['kind'], []).append(r['cpu'])
        for v in r['violations']:
            viols.append((i, v))
        for s in r['incon']:
            incon.append((i, s))
    known = load_known(o.prop)
    new, found = [], {}
    for i, v in viols:
        for e in known:
            if matches(e, cases[i], v):
                found.setdefault(e['id'], (e, i, v))
                break
        else:
            new.append((i, v))
    for eid, (e, i, v) in sorted(found.items()):
        print('KNOWN-FINDING: property=%s %s: %s' % (o.prop, eid, e['what']))
    wall = time.time() - t0
    missing = [k for k in getattr(module, 'REQUIRED', []) if events.get(k, 0) == 0]
    # One replay file per distinct mechanism.
    code = 0
    if new:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        seen = {}
        for i, v in new:
            seen.setdefault((cases[i]['kind'], v['kind']), []).append((i, v))
        for n, ((ck, vk), lst) in enumerate(sorted(seen.items())[:12]):
            i, v = min(lst, key=lambda t: t[0])
            path = os.path.join(VERIF, 'replays', '%s-%s-%s.json' % (o.prop, ck, vk))
            with open(path, 'w') as f:
                json.dump(dict(property=o.prop, case=core.jsonable_case(cases[i])
                               if hasattr(core, 'jsonable_case') else cases[i],
                               monitor=vk, message=v['msg'], witness=v['witness'],
                               count=len(lst), seed=o.seed, tier=o.tier,
                               replay_cmd='bash check.sh %s --replay %s' % (o.prop, path)),
                          f, indent=1, default=str)
            print('-- %s/%s (%d occurrences) case %d %s\n   %s' % (
                ck, vk, len(lst), i, json.dumps(core.jsonable(cases[i]))[:600],
                v['msg'][:800]))
            if o.verbose:
                print(json.dumps(v['witness'], indent=1)[:6000].replace('\\n', '\n'))
            print('VIOLATION property=%s replay=%s' % (o.prop, path))
        code = 1
    elif o.replay or o.only or o.case is not None:
        pass
    elif missing:
        print('INCONCLUSIVE property=%s: monitors never reached: %s' % (o.prop, missing))
        code = 2
    elif len(incon) > 0.25 * max(n_run, 1):
        print('INCONCLUSIVE property=%s: %d of %d cases' % (o.prop, len(incon), n_run))
        code = 2
    elif n_run == 0:
        print('INCONCLUSIVE property=%s: no case was run' % o.prop)
        code = 2
    if incon:
        print('note: %d inconclusive cases, e.g. case %d (%s): %s' % (
            len(incon), incon[0][0], cases[incon[0][0]]['kind'], incon[0][1][-700:]))
    nk = {}
    for c, r in zip(cases, results):
        if r is not None:
            nk[c['kind']] = nk.get(c['kind'], 0) + 1
    step = max(1, len(cases) // 5)
    ev = dict(property=o.prop, tier=o.tier, seed=o.seed, level='exploration',
              coverage=dict(
                  evaluations=n_run,
                  distinct_nontrivial=len(nontrivial),
                  rule=getattr(module, 'RULE', 'one case = one generated scenario run against the'
                               ' real code; non-trivial = at least one monitor decision was made in it'),
                  samples=[core.jsonable(c) for c in cases[::step][:6]],
                  cases_by_kind=nk,
                  monitor_decisions=events,
                  monitor_decisions_total=sum(events.values()),
                  distinct_observed_situations=len(sigs),
                  largest_relative_deviation={k: float('%.3g' % v) for k, v in maxerr.items()},
                  cpu_s_by_kind={k: round(sum(v), 2) for k, v in percost.items()},
                  cases_not_run=n_not_run,
                  inconclusive_cases=[dict(case=i, why=s[-300:]) for i, s in incon[:10]],
                  n_inconclusive=len(incon),
                  known_findings_seen=sorted(found)),
              assumptions=list(getattr(module, 'ASSUMPTIONS', [])),
              wall_s=round(wall, 2), violations=len(new))
    if hasattr(module, 'extra_coverage'):
        ev['coverage'].update(module.extra_coverage(cases, results))
    if not (o.replay or o.only or o.case is not None):
        evd = os.environ.get('RVM_EVIDENCE', os.path.join(VERIF, 'evidence'))
        os.makedirs(evd, exist_ok=True)
        with open(os.path.join(evd, o.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s seed %d: %d cases, %d decisions, %d violations, %d known, %d inconclusive, %.1f s'
          % (o.prop, o.tier, o.seed, n_run, sum(events.values()), len(new),
             len(found), len(incon), wall))
    if o.verbose:
        for k in sorted(events):
            print('   %-40s %10d   max rel. dev. %.2e' % (k, events[k], maxerr.get(k, 0)))
        for k, v in percost.items():
            print('   cpu %-30s n=%d sum=%.1f max=%.1f' % (k, len(v), sum(v), max(v)))
    return code

if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    code = main()
    sys.stdout.flush()
    sys.exit(code)
