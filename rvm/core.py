"""
Monitors, worker pool and verdicts.

A property module defines
    ID, LEVEL_NOTE ... (see check.py)
    cases(rng, tier)      -> list of JSON-able dicts, each with a 'kind'
    run_<kind>(mon, case) -> drives the real code, the monitor `mon` observes
    REQUIRED              -> event kinds which have to be observed

Verdicts are three valued: violated / held on what was observed /
inconclusive (exit code 2).
"""
import os, sys, json, time, signal, traceback, hashlib, resource, threading
import multiprocessing as mp
import numpy as np

class Inconclusive(Exception):
    pass

def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, (str, bool, int, type(None))):
        return x
    if isinstance(x, float):
        return x
    if isinstance(x, complex):
        return repr(x)
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth)
    if isinstance(x, np.ndarray):
        if x.size > 60:
            return 'array%s %s' % (x.shape, np.array2string(x.ravel()[:30],
                                   threshold=30, max_line_width=400))
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    return repr(x)[:300]

class Monitor:
    """Observes the execution of one case."""

    def __init__(self, case):
        self.case = case
        self.events = {}
        self.violations = []
        self.incon = []
        self.maxerr = {}
        self.sigs = set()
        self._per = {}

    def event(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + int(n)

    def sig(self, *args):
        """Register a distinct observed situation."""
        self.sigs.add(hashlib.md5(repr(args).encode()).hexdigest()[:16])

    def ok(self, kind, cond, msg='', n=1, **wit):
        """The decision: `cond` has to hold."""
        self.event(kind, n)
        if not bool(cond):
            self.violate(kind, msg, **wit)
            return False
        return True

    def violate(self, kind, msg='', **wit):
        c = self._per[kind] = self._per.get(kind, 0) + 1
        if c <= 3:
            self.violations.append(dict(kind=kind, msg=str(msg)[:2000],
                                        witness=jsonable(wit)))

    def close(self, kind, a, b, rtol=1e-9, atol=0.0, scale=None, msg='', **wit):
        """|a - b| <= atol + rtol * scale, shapes equal (or broadcastable)."""
        a = np.asarray(a)
        b = np.asarray(b)
        self.event(kind, max(a.size, 1))
        if a.shape != b.shape:
            self.violate(kind, '%s: shapes differ: %s != %s'
                         % (msg, a.shape, b.shape), **wit)
            return False
        if a.size == 0:
            return True
        if scale is None:
            scale = max(float(np.max(np.abs(b))), float(np.max(np.abs(a)))) \
                if np.isfinite(np.abs(a)).all() and np.isfinite(np.abs(b)).all() else 1.0
        d = np.abs(a - b)
        bad = ~(d <= atol + rtol * scale)
        if scale > 0 and np.isfinite(d).all():
            e = float(d.max()) / max(scale, 1e-300)
            self.maxerr[kind] = max(self.maxerr.get(kind, 0.0), e)
        if bad.any():
            i = tuple(int(k[0]) for k in np.nonzero(bad)) if bad.ndim else ()
            self.violate(kind, '%s: differ at %s: %r != %r (max. abs. difference %.3e,'
                         ' scale %.3e, %d of %d entries)'
                         % (msg, i, a[i], b[i], float(np.nanmax(d)) if np.isfinite(d).any() else np.nan,
                            scale, int(bad.sum()), a.size), **wit)
            return False
        return True

    def equal(self, kind, a, b, msg='', **wit):
        a = np.asarray(a)
        b = np.asarray(b)
        self.event(kind, max(a.size, 1))
        if a.shape != b.shape or not np.array_equal(a, b):
            self.violate(kind, '%s: %s != %s' % (msg, jsonable(a), jsonable(b)), **wit)
            return False
        return True

    def raises(self, kind, exc, fun, *args, msg='', **kwargs):
        self.event(kind)
        try:
            r = fun(*args, **kwargs)
        except exc:
            return True
        self.violate(kind, '%s: expected an exception, got %s'
                     % (msg, repr(r)[:200]))
        return False

    def inconclusive(self, why):
        self.incon.append(str(why)[:1000])

HARNESS = os.path.dirname(os.path.abspath(__file__))

def classify_exception(exc):
    """
    'harness' if the exception says that this harness does not fit the code
    (a renamed or removed interface), 'code' if the code under test failed on
    valid input.
    """
    from .build import REPO
    frames = traceback.extract_tb(exc.__traceback__)
    last = frames[-1].filename if frames else ''
    inner_is_harness = os.path.abspath(last).startswith(HARNESS)
    through_repo = any(f.filename.startswith(REPO + os.sep + 'sfepy')
                       or f.filename.startswith('sfepy') for f in frames)
    if isinstance(exc, Inconclusive):
        return 'inconclusive'
    if isinstance(exc, ImportError) and not through_repo:
        return 'harness'
    if inner_is_harness:
        if isinstance(exc, (AttributeError, ImportError, NameError)):
            return 'harness'
        if isinstance(exc, TypeError) and 'argument' in str(exc):
            return 'harness'
        return 'code'
    return 'code'

def run_case(module, case):
    mon = Monitor(case)
    t0 = time.process_time()
    np.random.seed(int(case.get('seed', 0)) % 2**32)
    try:
        fun = getattr(module, 'run_' + case['kind'])
        fun(mon, case)
    except MemoryError as exc:
        mon.inconclusive('MemoryError')
    except Exception as exc:
        what = classify_exception(exc)
        tb = traceback.format_exc()
        if what == 'code':
            mon.violate('exception', '%s: %s' % (type(exc).__name__, str(exc)[:500]),
                        traceback=tb[:1500] + tb[-2500:])
        else:
            mon.inconclusive('%s: %s' % (type(exc).__name__, tb[-1500:]))
    return dict(events=mon.events, violations=mon.violations, incon=mon.incon,
                maxerr=mon.maxerr, sigs=sorted(mon.sigs),
                cpu=time.process_time() - t0)

def _worker(module, conn, idx, prefix):
    import faulthandler
    os.environ['RVM_WORKER'] = str(idx)
    d = os.path.join(os.getcwd(), 'w%d-%d' % (idx, os.getpid()))
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    log = open(prefix + '.%d.err' % idx, 'a')
    os.dup2(log.fileno(), 2)
    os.dup2(log.fileno(), 1)
    sys.stdout = sys.stderr = log
    faulthandler.enable(log)
    try:
        import resource
        # A runaway allocation becomes a MemoryError here, not an OOM kill.
        if not os.environ.get('RVM_NOLIMIT'):
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except Exception:
        pass
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            break
        if msg is None:
            break
        i, case = msg
        log.write('case %d %r\n' % (i, case))
        log.flush()
        conn.send((i, run_case(module, case)))
    conn.close()
    log.close()
    os._exit(0)

def proc_cpu(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            s = f.read().rsplit(')', 1)[1].split()
        return (int(s[11]) + int(s[12])) / os.sysconf('SC_CLK_TCK')
    except Exception:
        return 0.0

def run_pool(module, cases, nproc=8, cpu_limit=240.0, wall_limit=800.0,
             deadline=None, logdir='.', progress=None):
    """Returns a list of results (None: not run)."""
    ctx = mp.get_context('fork')
    results = [None] * len(cases)
    retried = [False] * len(cases)
    order = sorted(range(len(cases)), key=lambda i: (-cases[i].get('cost', 1), i))
    todo = list(reversed(order))
    nproc = max(1, min(nproc, len(cases)))
    prefix = os.path.join(logdir, 'worker')
    workers = {}

    def start(idx):
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(module, b, idx, prefix))
        p.start()
        b.close()
        workers[idx] = dict(p=p, conn=a, job=None, t0=None, cpu0=None)

    def feed(idx):
        w = workers[idx]
        if deadline is not None and time.time() > deadline:
            todo.clear()
        if todo:
            i = todo.pop()
            w['job'] = i
            w['t0'] = time.time()
            w['cpu0'] = proc_cpu(w['p'].pid)
            w['conn'].send((i, cases[i]))
            return True
        w['job'] = None
        try:
            w['conn'].send(None)
        except Exception:
            pass
        return False

    for idx in range(nproc):
        start(idx)
    for idx in range(nproc):
        feed(idx)
    while any(w['job'] is not None for w in workers.values()):
        conns = {w['conn']: idx for idx, w in workers.items()
                 if w['job'] is not None}
        ready = mp.connection.wait(list(conns), timeout=1.0)
        for c in ready:
            idx = conns[c]
            w = workers[idx]
            try:
                i, res = c.recv()
                results[i] = res
                feed(idx)
            except (EOFError, OSError):
                w['p'].join()
                rc = w['p'].exitcode
                tail = ''
                try:
                    with open(prefix + '.%d.err' % idx, errors='replace') as f:
                        tail = f.read()[-3000:]
                except OSError:
                    pass
                if rc and rc > 0 and not retried[w['job']] and ('MPI_INIT' in tail or 'orte_init' in tail):
                    # MPI could not be started, repeat the case.
                    retried[w['job']] = True
                    todo.append(w['job'])
                else:
                    results[w['job']] = crash_result(rc, tail)
                start(idx)
                feed(idx)
        for idx, w in list(workers.items()):
            if w['job'] is None:
                continue
            cpu = proc_cpu(w['p'].pid) - w['cpu0']
            wall = time.time() - w['t0']
            if cpu > cpu_limit or wall > wall_limit:
                w['p'].kill()
                w['p'].join()
                if cpu > cpu_limit:
                    results[w['job']] = dict(
                        events={'bounded_progress': 1}, violations=[dict(
                            kind='no_progress', msg='the case used %.0f s of CPU'
                            ' time without finishing' % cpu, witness={})],
                        incon=[], maxerr={}, sigs=[], cpu=cpu)
                else:
                    results[w['job']] = dict(
                        events={}, violations=[], incon=['watchdog: %.0f s' % wall],
                        maxerr={}, sigs=[], cpu=cpu)
                start(idx)
                feed(idx)
    for w in workers.values():
        w['p'].join(5)
        if w['p'].is_alive():
            w['p'].kill()
    return results

def crash_result(rc, tail):
    if rc == -signal.SIGKILL:
        return dict(events={}, violations=[], incon=['worker killed (memory?)'],
                    maxerr={}, sigs=[], cpu=0.0)
    return dict(events={'crash': 1},
                violations=[dict(kind='crash', msg='worker process died, exit code %s'
                                 % rc, witness=dict(log=tail))],
                incon=[], maxerr={}, sigs=[], cpu=0.0)
