"""
The configuration of microproblems for C18.
"""
CONF = '''
import json, os
import numpy as np
from sfepy.homogenization.utils import define_box_regions
import sfepy.discrete.fem.periodic as per
import sfepy.homogenization.coefs_base as cb

P = json.load(open(os.path.splitext(__file__)[0] + '.json'))
dim = P['dim']
filename_mesh = P['mesh']
n_phase = len(P['phases'])

def update(states, macro, problem):
    """Micro-structures with stretched layers."""
    base = np.array(P['base'])
    for im, maps in enumerate(P['micro']):
        for ia in range(dim):
            states[im][:, ia] = np.interp(base[:, ia], maps[ia][0], maps[ia][1])

def grow(states, macro, problem):
    states *= P['grow']

def values(ts, coors, mode=None, problem=None, **kwargs):
    """Parameters depending on the micro-structure."""
    if mode != 'qp':
        return
    f = 1.0
    if hasattr(problem, 'micro_state'):
        f = P['factors'][problem.micro_state[0]['id'][problem.micro_state[1]]]
    return {'f': np.full((len(coors), 1, 1), f)}

functions = {'match_x': (per.match_x_plane if dim == 3 else per.match_x_line,), 'match_y': (per.match_y_plane if dim == 3 else per.match_y_line,),
             'match_z': (per.match_z_plane,), 'values': (values,)}
if dim == 2:
    functions['match_x'], functions['match_y'] = (per.match_y_line,), (per.match_x_line,)

regions = {'Y': 'all'}
for i in range(n_phase):
    regions['Y%d' % i] = ('cells of group %d' % (i + 1), 'cell')
box = define_box_regions(dim, P['lbn'], P['rtf'], eps=1e-5)
regions.update(box)

order = P['fe_order']
fields = {'scalar': ('real', 1, 'Y', order), 'vector': ('real', dim, 'Y', order)}
variables = {
    't': ('unknown field', 'scalar'), 's': ('test field', 'scalar', 't'),
    'Pt': ('parameter field', 'scalar', 't'), 'Pt1': ('parameter field', 'scalar', '(set-to-None)'), 'Pt2': ('parameter field', 'scalar', '(set-to-None)'),
    'u': ('unknown field', 'vector'), 'v': ('test field', 'vector', 'u'),
    'Pi': ('parameter field', 'vector', 'u'), 'Pi1': ('parameter field', 'vector', '(set-to-None)'), 'Pi2': ('parameter field', 'vector', '(set-to-None)'),
}
materials = {'mat': ({'K': {'Y%d' % i: np.array(p['K']) for i, p in enumerate(P['phases'])},
                      'D': {'Y%d' % i: np.array(p['D']) for i, p in enumerate(P['phases'])},
                      'r': {'Y%d' % i: p['r'] for i, p in enumerate(P['phases'])}},),
             'fun': 'values'}
ebcs = {'fixed_t': ('Corners', {'t.0': 0.0}), 'fixed_u': ('Corners', {'u.all': 0.0})}
sides = [('x', ['Left', 'Right']), ('y', ['Bottom', 'Top'])] if dim == 2 else [('x', ['Left', 'Right']), ('y', ['Near', 'Far']), ('z', ['Bottom', 'Top'])]
epbcs = {}
for n, ss in sides:
    for v in 'tu':
        epbcs['per_%s_%s' % (n, v)] = (ss if P['flip'] % 2 else ss[::-1], {v + '.all': v + '.all'}, 'match_' + n)

o = 2 * order
requirements = {
    'pis_t': {'variables': ['t'], 'class': cb.ShapeDim},
    'pis_u': {'variables': ['u'], 'class': cb.ShapeDimDim},
    'corrs_t': {'requires': ['pis_t'], 'ebcs': ['fixed_t'], 'epbcs': [k for k in epbcs if k.endswith('t')],
                'equations': {'eq': 'dw_diffusion.%d.Y(mat.K, s, t) = -dw_diffusion.%d.Y(mat.K, s, Pt)' % (o, o)},
                'set_variables': [('Pt', 'pis_t', 't')], 'class': cb.CorrDim, 'save_name': 'corrs_t', 'is_linear': P['linear']},
    'corrs_u': {'requires': ['pis_u'], 'ebcs': ['fixed_u'], 'epbcs': [k for k in epbcs if k.endswith('u')],
                'equations': {'eq': 'dw_lin_elastic.%d.Y(mat.D, v, u) = -dw_lin_elastic.%d.Y(mat.D, v, Pi)' % (o, o)},
                'set_variables': [('Pi', 'pis_u', 'u')], 'class': cb.CorrDimDim, 'save_name': 'corrs_u', 'is_linear': P['linear']},
    # Due to an eigenstrain in the first phase.
    'corrs_e': {'ebcs': ['fixed_u'], 'epbcs': [k for k in epbcs if k.endswith('u')],
                'equations': {'eq': 'dw_lin_elastic.%d.Y(mat.D, v, u) = dw_div.%d.Y0(v)' % (o, o)},
                'class': cb.CorrOne, 'is_linear': P['linear']},
}
coefs = {
    'K': {'requires': ['pis_t', 'corrs_t'], 'expression': 'dw_diffusion.%d.Y(mat.K, Pt1, Pt2)' % o,
          'set_variables': [('Pt1', ('pis_t', 'corrs_t'), 't'), ('Pt2', ('pis_t', 'corrs_t'), 't')], 'class': cb.CoefDimDim},
    # The nonsymmetric form, valid due to the orthogonality.
    'K1': {'requires': ['pis_t', 'corrs_t'], 'expression': 'dw_diffusion.%d.Y(mat.K, Pt1, Pt2)' % o,
           'set_variables': [('Pt1', 'pis_t', 't'), ('Pt2', ('corrs_t', 'pis_t'), 't')], 'class': cb.CoefDimDim},
    'D': {'requires': ['pis_u', 'corrs_u'], 'expression': 'dw_lin_elastic.%d.Y(mat.D, Pi1, Pi2)' % o,
          'set_variables': [('Pi1', ('pis_u', 'corrs_u'), 'u'), ('Pi2', ('pis_u', 'corrs_u'), 'u')], 'class': cb.CoefSymSym},
    'D9': {'requires': ['pis_u', 'corrs_u'], 'expression': 'dw_lin_elastic.%d.Y(mat.D, Pi1, Pi2)' % o,
           'set_variables': [('Pi1', ('pis_u', 'corrs_u'), 'u'), ('Pi2', ('pis_u', 'corrs_u'), 'u')], 'class': cb.CoefNonSymNonSym},
    'Df': {'requires': ['pis_u', 'corrs_u'], 'expression': 'dw_lin_elastic.%d.Y0(mat.D, Pi1, Pi2)' % o, 'set_volume': 'first',
           'set_variables': [('Pi1', 'pis_u', 'u'), ('Pi2', ('pis_u', 'corrs_u'), 'u')], 'class': cb.CoefSymSym},
    # The eigenstrain: by the correctors of the unit strains and by its own.
    'E': {'requires': ['pis_u', 'corrs_u'], 'expression': 'ev_div.%d.Y0(Pi1)' % o,
          'set_variables': [('Pi1', ('pis_u', 'corrs_u'), 'u')], 'class': cb.CoefSym},
    'E0': {'requires': ['pis_u'], 'expression': 'ev_div.%d.Y0(Pi1)' % o, 'set_variables': [('Pi1', 'pis_u', 'u')], 'class': cb.CoefSym},
    'E1': {'requires': ['pis_u', 'corrs_e'], 'expression': 'dw_lin_elastic.%d.Y(mat.D, Pi1, Pi2)' % o,
           'set_variables': [('Pi1', 'corrs_e', 'u'), ('Pi2', 'pis_u', 'u')], 'class': cb.CoefSym},
    'r': {'requires': [], 'expression': 'ev_integrate_mat.%d.Y(mat.r, t)' % o, 'class': cb.CoefOne},
    'f': {'expression': 'ev_integrate_mat.%d.Y(fun.f, t)' % o, 'class': cb.CoefOne},
    'vol': {'regions': ['Y%d' % i for i in range(n_phase)], 'expression': 'ev_volume.%d.%%s(t)' % o, 'class': cb.VolumeFractions},
}
for name, reqs, expr, status in P['evals']:
    coefs[name] = {'requires': ['c.' + r for r in reqs], 'class': cb.CoefSum if expr is None else cb.CoefEval, 'status': status}
    if expr is not None:
        coefs[name]['expression'] = expr
if P['use'] is not None:
    coefs = {k: v for k, v in coefs.items() if k in P['use']}
coefs = {k: coefs[k] for k in sorted(coefs, key=lambda k: P['rank'].get(k, 0))}
requirements = {k: requirements[k] for k in sorted(requirements, key=lambda k: P['rank'].get(k, 0))}
if P['filenames']:
    coefs['filenames'] = {}

vol = {'variables': ['t'], 'expression': 'ev_volume.%d.Y(t)' % o}
options = {'coefs': 'coefs', 'requirements': 'requirements',
           'volumes': {'total': {'value': P['volume']} if P['by_value'] else vol, 'first': {'variables': ['t'], 'expression': 'ev_volume.%d.Y0(t)' % o}},
           'output_dir': P['output_dir'], 'coefs_filename': 'coefs', 'save_formats': ['h5'], 'max_workers': 2}
if P['micro'] is not None:
    options['micro_update'] = {'coors': update if P['grow'] is None else grow}
options.update(P['options'])
solvers = {'ls': ('ls.scipy_direct', {}), 'newton': ('nls.newton', {'i_max': 1, 'eps_a': 1e-8, 'eps_r': 1e-9})}
'''
