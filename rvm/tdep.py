"""Time-dependent problems built from problem descriptions, with recorded traces."""
import os
import sys

import numpy as np

from . import gen


def mesh_of(rng, g, shape=None):
    """(raw, Mesh) of a small mesh."""
    if shape is None:
        shape = {1: [5 + rng.randint(4)], 2: [3 + rng.randint(2), 3], 3: [3, 2, 2]}[int(g[0])]
    raw = gen.raw_mesh(rng, g, shape=shape, jitter=0.2 if g != '1_2' else 0.0, affine=False)
    return raw, gen.to_mesh(raw) if hasattr(gen, 'to_mesh') else None


def problem(desc, tmp=None):
    """Problem from a dictionary of a problem description."""
    from sfepy.base.conf import ProblemConf
    from sfepy.discrete import Problem
    conf = ProblemConf.from_dict(dict(desc), sys.modules[__name__])
    pb = Problem.from_conf(conf)
    if tmp is not None:
        pb.setup_output(output_filename_trunk=desc.get('trunk', 'p'), output_dir=str(tmp),
                        output_format=desc.get('options', {}).get('output_format', 'h5'))
    return pb


def mesh_hook(mesh):
    """filename_mesh of a given mesh."""
    from sfepy.discrete.fem.meshio import UserMeshIO

    def hook(m, mode):
        if mode == 'read':
            return mesh.copy()
    return UserMeshIO(hook)


class Trace:
    """step_hook recording the states."""

    def __init__(self, names, extra=None):
        self.names = names
        self.rows = []
        self.extra = extra

    def __call__(self, pb, ts, variables):
        row = dict(time=float(ts.time), dt=float(ts.dt), step=int(ts.step), nt=float(ts.nt), n_step=int(ts.n_step))
        for n in self.names:
            row[n] = np.array(variables[n](), copy=True)
        if self.extra is not None:
            row.update(self.extra(pb, ts, variables))
        self.rows.append(row)

    def __len__(self):
        return len(self.rows)

    def __getitem__(self, i):
        return self.rows[i]

    def col(self, name):
        return np.array([r[name] for r in self.rows])


class Time:
    """A smooth function of time with derivatives."""

    def __init__(self, rng, amp=1.0, om=None):
        self.a, self.b = rng.randn(2) * amp
        self.c = rng.rand() * 6
        self.om = (1 + 3 * rng.rand()) if om is None else om

    def __call__(self, t, d=0):
        w, p = self.om, self.om * t + self.c
        s = [np.sin, np.cos, lambda x: -np.sin(x), lambda x: -np.cos(x)][d % 4](p) * w**d
        return self.a * s + self.b * ([1.0, 0.0][min(d, 1)])


def matrices(pb_fields, terms, region, integral):
    """Dense matrices of bilinear terms: terms {name: (text, materials dict)} over a field."""
    from sfepy.discrete import FieldVariable, Equation, Equations, Material
    from sfepy.terms import Term
    out = {}
    for name, (txt, field, vals) in terms.items():
        u = FieldVariable('u', 'unknown', field)
        v = FieldVariable('v', 'test', field, primary_var_name='u')
        m = Material('m', **vals)
        t = Term.new(txt, integral, region, m=m, u=u, v=v)
        eqs = Equations([Equation('e', t)])
        eqs.time_update(None, None, None, None, None, verbose=False)
        eqs.time_update_materials(None, verbose=False)
        eqs.init_state()
        A = eqs.create_matrix_graph()
        out[name] = eqs.eval_tangent_matrices(np.zeros(field.n_nod * field.n_components), A).toarray()
    return out


def vector(txt, field, integral, region, materials, params=None):
    """Assembled vector of a linear form or of a nonlinear term with given values of u."""
    from sfepy.discrete import FieldVariable, Equation, Equations
    from sfepy.terms import Term
    u = FieldVariable('u', 'unknown', field)
    v = FieldVariable('v', 'test', field, primary_var_name='u')
    # The second term brings the unknown in.
    t = Term.new(txt, integral, region, u=u, v=v, **materials) + 0.0 * Term.new('dw_dot(v, u)', integral, region, u=u, v=v)
    eqs = Equations([Equation('e', t)])
    eqs.time_update(None, None, None, None, None, verbose=False)
    eqs.time_update_materials(None, verbose=False)
    eqs.init_state()

    def fun(x):
        return np.array(eqs.eval_residuals(np.asarray(x).copy()))
    return fun
