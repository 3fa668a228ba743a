"""
Own process for the homogenization engine: it starts worker processes, that import this module.

    python -m rvm.hom RUNS.json OUT.pickle
"""
from rvm import boot
boot.boot('plain')

import os, random, time

def delays():
    """Random delays of the tasks of a worker."""
    import sfepy.homogenization.engine as engine
    orig = engine.HomogenizationWorkerMulti.calculate_req
    def delayed(*args):
        time.sleep(random.random() * float(os.environ['RVM_DELAY']))
        out = orig(*args)
        time.sleep(random.random() * float(os.environ['RVM_DELAY']))
        return out
    engine.HomogenizationWorkerMulti.calculate_req = staticmethod(delayed)

def one(run):
    import os
    from sfepy.base.base import Struct
    from sfepy.base.conf import ProblemConf, get_standard_keywords
    from sfepy.homogenization.homogen_app import HomogenizationApp
    required, other = get_standard_keywords()
    required.remove('equations')
    conf = ProblemConf.from_file(run['conf'], required, other, verbose=False)
    for k, v in run.get('options', {}).items():
        setattr(conf.options, k, v)
    if run.get('reverse'):
        for k in ('coefs', 'requirements'):
            name = conf.options.get(k)
            setattr(conf, name, dict(reversed(list(getattr(conf, name).items()))))
    if run.get('macro'):
        import numpy as np
        conf.options.macro_data = {k: np.array(v) for k, v in run['macro'].items()}
    options = Struct(output_filename_trunk=None, save_ebc=False, save_ebc_nodes=False, save_regions=False, save_regions_as_groups=False, solve_not=False)
    app = HomogenizationApp(conf, options, 'homogen:', n_micro=run.get('n_micro'))
    if run.get('n_micro'):
        import numpy as np
        app.setup_macro_data({'strain': np.zeros((run['n_micro'], 1))})
    out = []
    for i in range(run.get('repeat', 1)):
        c, deps = app(ret_all=True)
        cc = {k: v for k, v in c.to_dict().items()}
        dd = {}
        for k, v in deps.items():
            dd[k] = [[(key, dict(s)) for key, s in x.iter_solutions()] for x in v] if isinstance(v, list) else [(key, dict(s)) for key, s in v.iter_solutions()]
        d = app.problem.output_dir
        out.append(dict(coefs=cc, deps=dd, files=sorted(os.listdir(d)), dir=d))
    return out

def unit(job):
    from sfepy.homogenization.engine import HomogenizationWorkerMulti as W, HomogenizationEngine as H
    from sfepy.base.resolve_deps import resolve
    what = job['what']
    try:
        if what == 'sort':
            return W.get_sorted_dependencies(job['reqs'], job['coefs'], job['only'])
        if what == 'chunk':
            tab, reqs, coefs = W.chunk_micro_tasks(job['n'], job['reqs'], job['coefs'], job['size'], job['store'])
            names = W.get_sorted_dependencies(reqs, coefs, None)
            deps = {k: [(k.split('|')[0], i) for i in range(job['n'])[tab[int(k.split(':')[1])]]] for k in names}
            out = W.dechunk_reqs_coefs(deps, len(tab))
            return dict(tab=[(t.start, t.stop) for t in tab], reqs=reqs, coefs=coefs, names=names, out=out)
        if what == 'volume':
            c = H.define_volume_coef(job['coefs'], job['volumes'])
            return {k: dict(v, **{'class': v['class'].__name__} if 'class' in v else {}) for k, v in c.items()}
        if what == 'resolve':
            return resolve(job['deps'])
    except Exception as exc:
        return (type(exc).__name__, str(exc))

def proxy_race(msg):
    """
    CPython (multiprocessing.managers.BaseProxy): collecting a proxy closes the
    connection of its thread, while another proxy of the same object uses it.
    """
    return 'multiprocessing/managers.py' in msg and ("'NoneType' object cannot be interpreted as an integer" in msg or 'handle is closed' in msg or 'BrokenPipeError' in msg or 'EOFError' in msg or 'ConnectionResetError' in msg)

def main():
    import sys, json, pickle, traceback
    import sfepy
    from sfepy.base.base import output
    output.set_output(quiet=True)
    runs = json.load(open(sys.argv[1]))
    if os.environ.get('RVM_DELAY'):
        import sfepy.homogenization.multiproc as mp
        from rvm.hom import delays as fun
        init = mp.init_workers
        def init_workers(*args, **kwargs):
            return init(*args, initializer=fun, **kwargs)
        mp.init_workers = init_workers
    res = []
    for r in runs:
        try:
            res.append(unit(r) if 'what' in r else one(r))
        except Exception:
            msg = traceback.format_exc()
            if proxy_race(msg):
                try:
                    res.append(one(r))
                except Exception:
                    res.append(traceback.format_exc())
            else:
                res.append(msg)
        if 'what' not in r:
            with open(sys.argv[2], 'wb') as f:
                pickle.dump(res, f)
    with open(sys.argv[2], 'wb') as f:
        pickle.dump(res, f)
    import sfepy.homogenization.multiproc as mp
    p = mp.active_workers.get('pool')
    if p is not None:
        p.shutdown()

if __name__ == '__main__':
    main()
