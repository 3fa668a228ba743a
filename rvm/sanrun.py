"""
Run cases of property modules in this process and observe memory: sanitizer reports, allocations of the C core left
over, kernels entered, and numbers computed.

python -m rvm.sanrun asan|plain IN.json OUT.json [log prefix]
"""
import sys, os, json, glob, gc, re, importlib

def main():
    kind, fin, fout = sys.argv[1:4]
    prefix = sys.argv[4] if len(sys.argv) > 4 else None
    from . import boot
    boot.boot(kind)
    import numpy as np
    from . import core
    job = json.load(open(fin))
    called = {}
    if job.get('trace', True):
        mt = sys.monitoring
        tid = 4
        kinds = ('cython_function_or_method', 'method_descriptor', 'builtin_function_or_method', 'type')

        def on_call(code, off, fun, arg0):
            t = type(fun).__name__
            if t in kinds or 'cython' in t:
                m = getattr(fun, '__module__', None)
                if m is None and hasattr(fun, '__objclass__'):
                    m = fun.__objclass__.__module__
                if m is not None and m.startswith('sfepy') and 'extmods' in m and t != 'type':
                    k = m.split('.')[-1] + '.' + getattr(fun, '__qualname__', '?')
                    called[k] = called.get(k, 0) + 1
        mt.use_tool_id(tid, 'rvm')
        mt.register_callback(tid, mt.events.CALL, on_call)
        mt.set_events(tid, mt.events.CALL)
    pos = {}

    known = {}

    def counters():
        """Functions of the allocators of the extension modules: {module: (usage, peak)}."""
        import ctypes
        import subprocess
        out, seen = {}, {}
        for line in open('/proc/self/maps'):
            p = line.split()
            if len(p) > 5 and p[5].endswith('.so') and '/sfepy/' in p[5] and 'extmods' in p[5]:
                seen.setdefault(p[5], int(p[0].split('-')[0], 16))
        for path, base in seen.items():
            if path in known:
                out[os.path.basename(path).split('.')[0]] = known[path]
                continue
            sym = {}
            for line in subprocess.run(['nm', path], capture_output=True, text=True).stdout.splitlines():
                w = line.split()
                if len(w) == 3 and w[2] in ('mem_get_cur_usage', 'mem_get_max_usage'):
                    sym[w[2]] = int(w[0], 16)
            if len(sym) == 2:
                fun = ctypes.CFUNCTYPE(ctypes.c_ssize_t)
                out[os.path.basename(path).split('.')[0]] = known[path] = [fun(base + sym[k]) for k in ('mem_get_cur_usage', 'mem_get_max_usage')]
        return out

    def fresh():
        out = []
        if prefix:
            for f in sorted(glob.glob(prefix + '*')):
                with open(f, errors='replace') as fd:
                    fd.seek(pos.get(f, 0))
                    t = fd.read()
                    pos[f] = fd.tell()
                if t.strip():
                    out.append(t)
        return '\n'.join(out)

    class Values:
        """Sums of the absolute values seen by monitors."""

        def __init__(self):
            self.out = []

        def put(self, kind, a):
            a = np.asarray(a)
            if a.dtype.kind not in 'iufcb' or a.size == 0:
                return
            with np.errstate(all='ignore'):
                self.out.append((kind, int(a.size), float(np.abs(a.astype(complex) if a.dtype.kind == 'c' else a.astype(float)).sum())))

    values = Values()
    close0, equal0 = core.Monitor.close, core.Monitor.equal

    def close(self, kind, a, b, *args, **kw):
        values.put(kind, a)
        return close0(self, kind, a, b, *args, **kw)

    def equal(self, kind, a, b, *args, **kw):
        values.put(kind, a)
        return equal0(self, kind, a, b, *args, **kw)
    core.Monitor.close, core.Monitor.equal = close, equal
    done = []
    fresh()

    def save(last=False):
        with open(fout + '.tmp', 'w') as f:
            json.dump(dict(done=done, called=called, complete=last), f)
        os.replace(fout + '.tmp', fout)
    for name, case in job['cases']:
        mod = importlib.import_module('rvm.p.' + name)
        values.out = []
        with open(fout + '.at', 'w') as f:
            json.dump([name, case], f)
        rec = dict(module=name, case=case)
        r = core.run_case(mod, case)
        if job.get('leak'):
            use = []
            gc.collect()
            gc.freeze()
            for _ in range(4):
                core.run_case(mod, case)
                gc.collect()
                cs = counters()
                # A block can be allocated in one module and freed in another one.
                use.append(sum(int(v[0]()) for v in cs.values()))
            rec['usage'] = use
            rec['peak'] = {k: int(v[1]()) for k, v in cs.items()}
        rec.update(events=sum(r['events'].values()), vio=[(v['kind'], v['msg'][:300]) for v in r['violations']][:5], incon=r['incon'][:1], cpu=r['cpu'],
                   report=fresh(), values=values.out if job.get('values') else None)
        if name == 'C24':
            rec['full'] = dict(events=r['events'], violations=r['violations'], sigs=r['sigs'])
        done.append(rec)
        save()
    save(True)

if __name__ == '__main__':
    main()
