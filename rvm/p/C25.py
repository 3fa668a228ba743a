"""C25: Problem descriptions mean the same however they are written.

Monitor: Random problem descriptions are written in the short, long, mixed and numbered syntax, as dictionaries, modules,
files, files with define() and its arguments, with overrides, and by the programmatic interface; the problems built have to have
the same regions, fields, variables, materials, conditions, equations, integrals, solvers and options, and the same residual,
matrix and solution. Random equations, option strings, overriding dictionaries and solver options are compared with the data
they were written from.
"""
import copy
import os
import pickle
import shutil
import sys
import tempfile
import types
import numpy as np
from rvm import gen

REQUIRED = ['parsed', 'parsed_value', 'string', 'summary', 'system', 'solution', 'override', 'update', 'missing', 'diagnosed', 'defaults', 'algebra', 'dofs', 'unchanged', 'define']
ASSUMPTIONS = ['words in option strings are identifiers, names of files or quoted strings; complex numbers in option strings are imaginary literals',
               'multipliers in equations are sums of numbers with signs and parentheses']

def cases(rng, tier):
    n = 2 if tier == 'quick' else 8
    out = [dict(kind='parse') for _ in range(4 * n)]
    out += [dict(kind='value') for _ in range(6 * n)]
    out += [dict(kind='strings') for _ in range(4 * n)]
    out += [dict(kind='syntax', cost=5) for _ in range(40 * n)]
    out += [dict(kind='update') for _ in range(3 * n)]
    out += [dict(kind='defaults') for _ in range(4 * n)]
    out += [dict(kind='invalid') for _ in range(8 * n)]
    out += [dict(kind='dofs') for _ in range(8 * n)]
    for c in out:
        c['seed'] = int(rng.randint(2**31 - 1))
    return out

def pick(rng, seq):
    return seq[rng.randint(len(seq))]

def sp(rng):
    return pick(rng, ['', '', ' ', '  ', '\n', ' \t'])

# Equations.

def number(rng, cplx):
    r = rng.randint(6)
    if r == 0:
        t = '%d' % rng.randint(1, 50)
    elif r == 1:
        t = '%d.' % rng.randint(1, 50)
    elif r == 2:
        t = '%.3f' % (5 * rng.rand() + 0.1)
    elif r == 3:
        t = '%.2fe%d' % (1 + rng.rand(), rng.randint(-2, 3))
    elif r == 4:
        t = '%dE%+d' % (rng.randint(1, 9), rng.randint(-2, 3))
    else:
        t = '%.1f' % (rng.randint(1, 90) / 10)
    v = float(t)
    if cplx and rng.rand() < 0.4:
        return t + 'j', 1j * v
    return t, v

def sums(rng, cplx, depth=0):
    """(text, value) of a sum."""
    n = 1 + rng.randint(3)
    text, val = '', 0
    for i in range(n):
        sg = pick(rng, '+-') if i else pick(rng, ['', '', '-'])
        if depth < 2 and rng.rand() < 0.3:
            t, v = sums(rng, cplx, depth + 1)
            t = '(' + sp(rng) + t + sp(rng) + ')'
        else:
            t, v = number(rng, cplx)
        text += (sp(rng) if i else '') + sg + (sp(rng) if i else '') + t
        val = val + (-v if sg == '-' else v)
    return text, val

def multiplier(rng, cplx, sign):
    """(text with '*', value): one number or a sum in parentheses; `sign` precedes it."""
    if rng.rand() < 0.4:
        t, v = number(rng, cplx)
    else:
        t, v = sums(rng, cplx)
        t = '(' + t + ')'
    return t + sp(rng) + '*' + sp(rng), -v if sign == '-' else v

def argument(rng):
    name = pick(rng, ['u', 'v', 'p_1', 'mat.val', 'm2.D_x', 'Temp', 'q3'])
    r = rng.randint(6)
    if r == 0:
        return name + '[-%d]' % rng.randint(1, 3)
    if r == 1:
        return 'd%s/dt' % name
    if r == 2:
        return pick(rng, ['tr(%s)', 'tr(Gamma_2, %s)', 'tr( R ,%s )']) % name
    return name

def squash(t):
    return ''.join(t.split())

def expression(rng, names=None, args=None, cplx=False, rhs=True):
    """(text, [(factor, name, integral, region, flag, args)])"""
    names = names or ['dw_laplace', 'dw_dot', 'ev_integrate', 'a_term', 'd1', 'i', 'i2x']
    text, out = '', []
    both = rhs and rng.rand() < 0.5
    sides = [1 + rng.randint(4), 1 + rng.randint(3)] if both else [1 + rng.randint(5)]
    for k, n in enumerate(sides):
        if k:
            text += sp(rng) + '=' + sp(rng)
        for i in range(n):
            sg = pick(rng, '+-') if i else pick(rng, ['', '', '+', '-'])
            text += sg + sp(rng)
            f = -1.0 if sg == '-' else 1.0
            if rng.rand() < 0.6:
                t, f = multiplier(rng, cplx, sg)
                text += t
            name = pick(rng, names)
            reg = pick(rng, ['Omega', 'Gamma_1', 'R2', 'iR', 'aux', 'Y']) if args is None else 'Omega'
            integ = pick(rng, ['i', 'i1', 'ivol', '2', '13', 'a', None]) if args is None else pick(rng, ['i', '2', '3'])
            flag = 'a' if integ is not None and rng.rand() < 0.2 and args is None else ''
            text += name + '.' + (integ + '.' if integ is not None else '') + reg + ('.a' if flag else '')
            aa = args[name] if args is not None else [argument(rng) for _ in range(1 + rng.randint(3))]
            text += sp(rng) + '(' + sp(rng) + (sp(rng) + ',' + sp(rng)).join(aa) + sp(rng) + ')' + sp(rng)
            out.append((-f if k else f, name, integ or 'a', reg, flag, [squash(a) for a in aa]))
    if rhs and not both and rng.rand() < 0.6:
        text += '=' + sp(rng) + '0'
    return text, out

def run_parse(mon, case):
    from sfepy.discrete.equations import parse_definition, get_expression_arg_names
    rng = gen.rngof(case)
    for _ in range(60):
        text, ref = expression(rng, cplx=rng.rand() < 0.3)
        try:
            tds = parse_definition(text)
        except Exception as exc:
            mon.violate('parsed', 'equation not parsed: %r (%s)' % (text, exc))
            continue
        got = [(td.name, td.integral, td.region, td.flag or '', [squash(a) for a in split(td.args)]) for td in tds]
        mon.ok('parsed', got == [r[1:] for r in ref], 'equation %r parsed as %s' % (text, got))
        if len(tds) == len(ref):
            mon.close('parsed', np.array([complex(td.sign) for td in tds]), np.array([complex(r[0]) for r in ref]), rtol=1e-13, msg='factors of %r' % text)
        want = set()
        for r in ref:
            for a in r[5]:
                want.add(a.split('.')[0] if a.count('.') == 1 else a)
        mon.equal('parsed', sorted(squash(a) for a in get_expression_arg_names(text)), sorted(want), 'names in %r' % text) if not any('tr(' in a for a in want) else None
        mon.sig('parse', len(ref), any(isinstance(r[0], complex) for r in ref), '=' in text)
        bad = pick(rng, [text + ')', text.replace('(', '', 1), text + ' + ', text + ' = = 0', '* ' + text, text.replace(')', ',)', 1), text + ' x'])
        if bad.count('(') != text.count('(') and bad.count('(') == bad.count(')'):
            continue
        try:
            out = parse_definition(bad)
            mon.violate('diagnosed', 'wrong equation %r accepted as %d terms' % (bad, len(out)))
        except ValueError:
            mon.event('diagnosed')

def split(args):
    """Arguments in a text, with commas in parentheses kept."""
    out, cur, depth = [], '', 0
    for c in args:
        depth += (c == '(') - (c == ')')
        if c == ',' and not depth:
            out.append(cur)
            cur = ''
        else:
            cur += c
    return out + [cur]

def run_value(mon, case):
    """Values of expressions are sums of values of terms; algebra of terms."""
    from sfepy.discrete import FieldVariable, Material, Integral, Integrals, Equations, Equation, Variables
    from sfepy.discrete.fem import FEDomain, Field
    from sfepy.discrete.materials import Materials
    from sfepy.terms import Term
    rng = gen.rngof(case)
    dom = FEDomain('d', gen.to_mesh(gen.raw_mesh(rng, pick(rng, ['2_3', '2_4', '1_2']), 3, 0.1, 0.0, False)))
    om = dom.create_region('Omega', 'all')
    f = Field.from_args('f', np.float64, 1, om, approx_order=1)
    u = FieldVariable('u', 'unknown', f, history=1)
    v = FieldVariable('v', 'test', f, primary_var_name='u')
    p = FieldVariable('p', 'parameter', f, primary_var_name='(set-to-None)')
    m = Material('m', k=2.0 + rng.rand(), c=1.0 + rng.rand())
    for a in (u, p):
        a.set_data(rng.randn(f.n_nod))
    args = {'dw_laplace': ['m.k', 'v', 'u'], 'dw_dot': ['m.c', 'v', 'u'], 'dw_integrate': ['v'], 'dw_volume_lvf': ['m.c', 'v']}
    integrals = Integrals([Integral('i', order=2)])
    orders = dict(i=2)

    def term(name, integ, sign=1.0):
        t = Term.new('%s(%s)' % (name, ', '.join(args[name])), integrals['i'] if integ == 'i' else Integral('j', order=int(integ)), om, m=m, u=u, v=v)
        return t * sign if sign != 1.0 else t

    def system(eqs):
        eqs.time_update(None, None, None, None, {})
        eqs.time_update_materials(None, verbose=False)
        eqs.init_state()
        x = xs[:]
        return eqs.eval_residuals(x), eqs.eval_tangent_matrices(x, eqs.create_matrix_graph().astype(float) * 0.0 if hasattr(eqs, 'create_matrix_graph') else None).toarray()
    xs = rng.randn(f.n_nod)
    base = {}
    for name in args:
        for integ in ('i', '2', '3'):
            base[name, integ] = system(Equations([Equation('e', term(name, integ))]))
    for _ in range(4):
        text, ref = expression(rng, sorted(args), args)
        eqs = Equations.from_conf({'e': text}, Variables([u, v]), dom.regions, Materials([m]), integrals, user=None, verbose=False)
        r, a = system(eqs)
        mon.close('parsed_value', r, sum(t[0] * base[t[1], t[2]][0] for t in ref), rtol=1e-9, scale=1 + sum(abs(t[0]) for t in ref), msg='residual of %r' % text)
        mon.close('parsed_value', a, sum(t[0] * base[t[1], t[2]][1] for t in ref), rtol=1e-9, scale=1 + sum(abs(t[0]) for t in ref), msg='matrix of %r' % text)
        # The same sum by operators.
        terms, val = None, (0.0, 0.0)
        for fac, name, integ, _, _, _ in ref:
            t = term(name, integ)
            how = rng.randint(4)
            t = [lambda: fac * t, lambda: t * fac, lambda: -((-fac) * t), lambda: +(fac * t)][how]()
            if terms is None:
                terms = t
            else:
                before = terms.copy() if rng.rand() < 0.5 else None
                new = [lambda: terms + t, lambda: terms - (-t), lambda: t + terms, lambda: -((-t) - terms)][rng.randint(4)]()
                terms = new
        eqs = Equations([Equation('e', terms)])
        r2, a2 = system(eqs)
        mon.close('algebra', r2, r, rtol=1e-9, scale=1 + sum(abs(t[0]) for t in ref), msg='residual of the sum of terms as %r' % text)
        mon.close('algebra', a2, a, rtol=1e-9, scale=1 + sum(abs(t[0]) for t in ref), msg='matrix of the sum of terms as %r' % text)
        mon.sig('value', len(ref), '=' in text)
    # Operators do not change their operands.
    t1, t2, t3 = [term('dw_dot', 'i', k) for k in (1.0, 2.0, -3.0)]
    s = t1 + t2
    n, signs = len(s), [t.sign for t in s]
    s2, s3, s4 = s + t3, -s, 2.0 * s
    mon.ok('algebra', len(s) == n and [t.sign for t in s] == signs and t1.sign == 1.0 and t3.sign == -3.0, 'operands changed by sums of terms: %d, %s' % (len(s), [t.sign for t in s]))
    mon.equal('algebra', [[t.sign for t in q] for q in (s3, s4)], [[-1.0, -2.0], [2.0, 4.0]], 'signs of multiples')
    mon.equal('algebra', [t.sign for t in s2], [1.0, 2.0, -3.0], 'signs of a sum')

# Option strings.

WORDS = ['abc', 'ls_1', 'nls', 'Omega', 'xTrue', 'nonesuch', 'e', 'scipy', 'falsey', 'Inf_', 'a1']

def data(rng, depth=0):
    """(value, text)"""
    r = rng.randint(13 if depth < 3 else 9)
    if r == 0:
        v = int(rng.randint(-1000, 1000))
        return v, pick(rng, ['%d', '%+d' if v >= 0 else '%d']) % v
    if r == 1:
        t = pick(rng, ['%.2f', '%.1fe-3', '%.3fE+2', '%.0f.', '%de5', '%.1fe2']) % (10 * rng.randn())
        return float(t), t
    if r == 2:
        t = pick(rng, ['True', 'true', 'False', 'false'])
        return t.lower() == 'true', t
    if r == 3:
        return None, pick(rng, ['None', 'none'])
    if r in (4, 5):
        t = pick(rng, WORDS)
        return t, t
    if r == 6:
        t = pick(rng, ['ls.scipy_direct', 'a b', 'x, y', '1', 'None', '(1)', '', 'u.[0,1]', '/tmp/x.h5', 'a:b', 'x=1'])
        q = pick(rng, '\'"')
        return t, q + t + q
    if r == 7:
        t = '%.2f' % (10 * rng.randn())
        return complex(0, float(t)), t + pick(rng, 'jJ')
    if r == 8:
        v = int(rng.randint(10))
        return v, str(v)
    if r in (9, 10):
        items = [data(rng, depth + 1) for _ in range(rng.randint(4))]
        b = '()' if r == 9 else '[]'
        v = tuple(i[0] for i in items) if r == 9 else [i[0] for i in items]
        s = ' ' * rng.randint(2)
        return v, b[0] + s + (s + ',' + s).join(i[1] for i in items) + (',' if items and (len(items) == 1 and r == 9 or rng.rand() < 0.2) else '') + s + b[1]
    v, t = mapping(rng, depth + 1)
    return v, '{' + t + '}'

def mapping(rng, depth=0):
    v, parts = {}, []
    for _ in range(rng.randint(4) if depth else 1 + rng.randint(4)):
        k = pick(rng, WORDS + ['b', 'c', 'd', 'opts', 'x_y'])
        if k in v:
            continue
        v[k], t = data(rng, depth)
        s = ' ' * rng.randint(2)
        parts.append(k + s + pick(rng, ':=') + s + t)
    return v, (',' + ' ' * rng.randint(2)).join(parts)

def run_strings(mon, case):
    from sfepy.base.base import Struct
    from sfepy.base.conf import dict_from_string, dict_from_options
    from sfepy.base.parse_conf import list_dict
    rng = gen.rngof(case)
    for _ in range(30):
        v, t = mapping(rng)
        try:
            got = dict_from_string(t)
        except Exception as exc:
            mon.violate('string', '%r not parsed: %s' % (t, exc))
            continue
        mon.ok('string', repr(got) == repr(v), 'string %r denotes %r, parsed as %r' % (t, v, got))
        mon.sig('string', len(v), tuple(sorted(type(x).__name__ for x in v.values())))
        got = dict_from_string(t, free_word=True)
        mon.ok('string', repr(got) == repr(v), 'string %r denotes %r, parsed as %r with free words' % (t, v, got))
        v2, t2 = mapping(rng)
        w = dict(v)
        w.pop('options', None)
        got = dict_from_options(Struct(conf=t, app_options=t2))
        mon.ok('string', repr(got) == repr(dict(w, options=v2)), 'configuration %r and options %r parsed as %r' % (t, t2, got))
        # Lists and dictionaries.
        items = [data(rng, 1) for _ in range(rng.randint(3))]
        text = ', '.join([i[1] for i in items] + ([t] if rng.rand() < 0.7 else []))
        d = v if t in text and text.endswith(t) and len(text) > 0 and (text == t or text.endswith(', ' + t)) else {}
        try:
            got = list_dict().parseString(text, parseAll=True)[0]
        except Exception as exc:
            mon.violate('string', '%r not parsed as a list and dictionary: %s' % (text, exc))
            continue
        mon.ok('string', repr((list(got[0]), dict(got[1]))) == repr(([i[0] for i in items], d)), 'list and dictionary %r parsed as %r' % (text, got))
        mon.equal('string', dict_from_string(None), {}, 'None')
        mon.ok('string', dict_from_string(v) is v, 'a dictionary')
        for bad in (t + ' :', '{' + t, t + ', = 1', 'a : (1, 2'):
            try:
                got = dict_from_string(bad)
                mon.violate('diagnosed', 'wrong option string %r parsed as %r' % (bad, got))
            except Exception:
                mon.event('diagnosed')

# Dictionaries.

def ref_update(dst, src, none):
    out = dict(dst)
    for k, v in src.items():
        if k in dst and isinstance(v, dict) and isinstance(dst[k], dict):
            out[k] = ref_update(dst[k], v, none)
        elif k in dst and isinstance(v, tuple) and isinstance(dst[k], tuple) and len(v) == len(dst[k]):
            out[k] = tuple(ref_update(a, b, none) if isinstance(a, dict) and isinstance(b, dict) else b for a, b in zip(dst[k], v))
        elif none or v is not None:
            out[k] = v
    return out

def tree(rng, depth=0):
    out = {}
    for k in 'abcdef':
        if rng.rand() < 0.6:
            r = rng.randint(6) if depth < 2 else rng.randint(3)
            out[k] = [lambda: int(rng.randint(100)), lambda: None, lambda: pick(rng, 'xyz'), lambda: tree(rng, depth + 1),
                      lambda: (pick(rng, 'xyz'), tree(rng, depth + 1)), lambda: tree(rng, depth + 1)][r]()
    return out

def run_update(mon, case):
    from sfepy.base.base import update_dict_recursively, edit_dict_strings, invert_dict, set_defaults, get_default, Struct
    rng = gen.rngof(case)
    for _ in range(60):
        a, b = tree(rng), tree(rng)
        none = bool(rng.randint(2))
        ref = ref_update(a, b, none)
        got = update_dict_recursively(copy.deepcopy(a), copy.deepcopy(b), True, none)
        mon.ok('update', got == ref, '%r updated by %r: %r, expected %r (overwrite by None: %s)' % (a, b, got, ref, none))
        mon.sig('update', len(a), len(b), none)
        d, e = copy.deepcopy(a), copy.deepcopy(b)
        set_defaults(d, e)
        mon.ok('update', d == {**b, **a}, 'set_defaults()')
        s = Struct(**copy.deepcopy(a))
        s.update(b)
        mon.ok('update', s.to_dict() == {**a, **b}, 'Struct.update()')
        k = pick(rng, 'abcdef')
        mon.ok('update', Struct(**a).get(k, 7) == a.get(k, 7) and get_default(a.get(k), 7) == (7 if a.get(k) is None else a[k]), 'defaults')
        s = {q: pick(rng, ['Omega', 'Y Omega', ('a_Omega', 1), 'x']) for q in 'abc'}
        mon.ok('update', edit_dict_strings(s, 'Omega', 'Y') == {q: (w.replace('Omega', 'Y') if isinstance(w, str) else (w[0].replace('Omega', 'Y'), 1)) for q, w in s.items()}, 'edit_dict_strings()')
        d = {q: int(w) for q, w in zip('abcd', rng.permutation(4))}
        mon.ok('update', invert_dict(invert_dict(d)) == d, 'invert_dict()')

# Descriptions.

def get_src(ts, coors, mode=None, amp=1.0, **kwargs):
    if mode == 'qp':
        return {'val': (amp * (1.0 + coors[:, 0])).reshape((-1, 1, 1))}

def get_src2(ts, coors, mode=None, **kwargs):
    if mode == 'qp':
        return {'val': (np.cos(coors[:, 0])).reshape((-1, 1, 1))}

def get_bc(ts, coors, bc=None, problem=None, **kwargs):
    return 0.3 * coors[:, 0] + 0.1

def get_shift(ts, coors, region):
    return 0.2 + coors[:, 1]

def match_y_line(*args):
    from sfepy.discrete.fem.periodic import match_y_line as fun
    return fun(*args)

FUNS = dict(get_src=get_src, get_src2=get_src2, get_bc=get_bc, match_y_line=match_y_line, get_shift=get_shift)
SOURCE = '''import numpy as np
from sfepy.discrete.fem.periodic import match_y_line
def get_src(ts, coors, mode=None, amp=1.0, **kwargs):
    if mode == 'qp':
        return {'val': (amp * (1.0 + coors[:, 0])).reshape((-1, 1, 1))}

def get_src2(ts, coors, mode=None, **kwargs):
    if mode == 'qp':
        return {'val': (np.cos(coors[:, 0])).reshape((-1, 1, 1))}

def get_bc(ts, coors, bc=None, problem=None, **kwargs):
    return 0.3 * coors[:, 0] + 0.1

def get_shift(ts, coors, region):
    return 0.2 + coors[:, 1]
'''
SECTIONS = ['regions', 'fields', 'variables', 'materials', 'ebcs', 'epbcs', 'lcbcs', 'ics', 'integrals', 'solvers', 'functions']

def abstract(rng, quad=True):
    """Abstract description: {section: {name: long dictionary}}."""
    d = dict(rest={})
    two = rng.rand() < 0.6
    regs = {'Omega': dict(select='all'), 'G1': dict(select='vertices in (x < 0.05)', kind='facet'),
            'G2': dict(select='vertices in (x > 0.95)', kind='facet'), 'P': dict(select='vertices in (y < 0.4)', kind='vertex'), 'Q': dict(select='r.G1 +v r.P', kind='vertex')}
    if rng.rand() < 0.5:
        regs['Half'] = dict(select='vertices in (x < 0.95)', kind='cell')
    if rng.rand() < 0.3:
        regs['GG'] = dict(select='r.G1', kind='vertex', parent='Omega')
        if rng.rand() < 0.5:
            regs['GG'].update(select='vertices in (x < 0.01)', extra_options={'cell_tdim': 2, 'mirror_region': 'G2'})
    d['regions'] = regs
    d['fields'] = {'f1': dict(dtype='real', shape=pick(rng, [1, (1,), 'scalar']), region='Omega', approx_order=1 + rng.randint(2))}
    if two:
        d['fields']['f2'] = dict(dtype=pick(rng, ['real', np.float64]), shape=1, region='Omega', approx_order=1)
        if rng.rand() < 0.5:
            d['fields']['f2'].update(space='H1', poly_space_basis=pick(rng, ['lagrange', 'lobatto'] if quad else ['lagrange']))
    if rng.rand() < 0.3:
        d['fields']['fc'] = dict(dtype=pick(rng, ['complex', np.complex128]), shape=2, region='Omega', approx_order=1)
    names = [['t', 's'], ['p', 'q']]
    o = [int(k) for k in rng.permutation(2)]
    d['variables'] = {'t': dict(kind='unknown field', field='f1', order=o[0]), 's': dict(kind='test field', field='f1', dual='t')}
    if rng.rand() < 0.4:
        d['variables']['t']['history'] = 1
    if two:
        d['variables'].update(p=dict(kind='unknown field', field='f2', order=o[1]), q=dict(kind='test field', field='f2', dual='p'))
    if rng.rand() < 0.5:
        d['variables']['w'] = dict(kind='parameter field', field='f1', like=pick(rng, ['t', None]))
        if rng.rand() < 0.3:
            d['variables']['w'] = dict(kind='parameter field', field='f1', like=None, special={'setter': 'get_w'})
        if rng.rand() < 0.6:
            d['variables']['w']['history'] = 1 + rng.randint(2)
    mats = {'m': dict(values={'k': float(1 + rng.rand()), 'c': 2.0, '.flag': 'yes'}), 'src': dict(function='get_src')}
    if rng.rand() < 0.3:
        mats['m']['values'] = {'k': {'Omega': 1.5}, 'c': {'Omega': 0.5}}
    if rng.rand() < 0.5:
        mats['m']['kind'] = 'stationary'
    if rng.rand() < 0.4:
        mats['src'].update(kind=pick(rng, ['stationary', 'time-dependent']))
    d['materials'] = mats
    cname = pick(rng, [('a', 'a0'), ('fix', 'fix1'), ('b', 'a'), ('e1', 'e10'), ('x', 'X')])
    d['ebcs'] = {cname[0]: dict(region='G1', dofs={'t.0': float(rng.rand())}), cname[1]: dict(region=pick(rng, ['P', 'Q', 'G2']), dofs={'t.all': pick(rng, [0.25, 'get_bc', 1.0])})}
    if two:
        d['ebcs']['c'] = dict(region='G2', dofs={'p.all': 0.0, **({'t.0': 0.5} if rng.rand() < 0.3 else {})})
    d['epbcs'] = {}
    if two and rng.rand() < 0.4:
        del d['ebcs']['c']
        d['epbcs']['per'] = dict(region=['G1', 'G2'], dofs={'p.0': 'p.0'}, match='match_y_line')
        if rng.rand() < 0.5:
            d['epbcs']['per']['times'] = [(0.0, 2.0)]
    d['lcbcs'] = {}
    if two and not d['epbcs'] and rng.rand() < 0.5:
        del d['ebcs']['c']
        d['lcbcs']['sh'] = dict(region=['G1', 'G2'], dofs={'p.0': 'p.0'}, dof_map_fun='match_y_line', kind='shifted_periodic', arguments=('get_shift',))
        if rng.rand() < 0.5:
            d['lcbcs']['sh']['times'] = [(0.0, 2.0)]
    if rng.rand() < 0.4:
        d['ebcs'][cname[1]]['times'] = [(0.0, 1.0)]
    d['ics'] = {'ic': dict(region='Omega', dofs={'t.0': 0.7})} if rng.rand() < 0.5 else {}
    d['integrals'] = {'i': dict(order=2 + rng.randint(2))}
    if rng.rand() < 0.3:
        d['integrals']['i2'] = dict(order=1)
    if rng.rand() < 0.3:
        # One point rule of the 2D simplex or square (given by the mesh).
        d['custom'] = True
    d['solvers'] = {'ls': dict(kind='ls.scipy_direct'), 'newton': dict(kind='nls.newton', i_max=int(1 + rng.randint(3)), eps_a=1e-9, **({'problem': 'linear'} if 0 else {}))}
    d['functions'] = {k: dict(function=f) for k, f in FUNS.items()}
    m1 = '%.1f * ' % (1 + rng.rand()) if rng.rand() < 0.5 else ''
    eq = {'eq1': 'dw_laplace.i.Omega(m.k, s, t) + %sdw_dot.i.Omega(m.c, s, t)%s = %sdw_volume_lvf.i.Omega(src.val, s)' % (m1, ' - dw_dot.2.Omega(s, p)' if two else '', pick(rng, ['', '- ', '0.5 * ']))}
    if two:
        eq['eq2'] = 'dw_laplace.2.Omega(q, p) + dw_dot.i.Omega(m.c, q, p) = dw_dot.i.%s(q, t)' % ('Half' if 'Half' in regs else 'Omega')
    d['rest'] = {'equations': eq, 'options': {'nls': 'newton', 'ls': 'ls', 'my_option': {'deep': [1, 2], 'x': 'y'}, **({'refinement_level': 1} if rng.rand() < 0.2 else {})}}
    return d

ORDER = dict(lcbcs=['region', 'times', 'dofs', 'dof_map_fun', 'kind'], regions=['select', 'kind', 'parent'], fields=['dtype', 'shape', 'region', 'approx_order', 'space', 'poly_space_basis'], materials=['values', 'function', 'kind'],
             ebcs=['region', 'times', 'dofs'], epbcs=['region', 'times', 'dofs', 'match'], ics=['region', 'times', 'dofs'], functions=['function'])
SINGLE = dict(regions='region', fields='field', variables='variable', materials='material', ebcs='ebc', epbcs='epbc', lcbcs='lcbc', ics='ic', integrals='integral', solvers='solver', functions='function')

def short(rng, sec, name, c):
    """Short syntax or None if not available."""
    if sec == 'regions':
        if set(c) == {'select'}:
            return c['select']
        return (c['select'], c.get('kind', 'cell')) + ((c['parent'],) if 'parent' in c else ()) + ((c['extra_options'],) if 'extra_options' in c else ())
    if sec == 'fields':
        return tuple(c[k] for k in ORDER[sec] if k in c)
    if sec == 'variables':
        kind = c['kind'].split()[0]
        k = dict(unknown='order', test='dual', parameter='like')[kind]
        if 'special' in c:
            k = 'special'
        return (c['kind'], c['field'], c[k]) + ((c['history'],) if 'history' in c else ())
    if sec == 'materials':
        if set(c) == {'function'} and rng.rand() < 0.5:
            return c['function']
        if set(c) == {'values'}:
            return (c['values'],)
        t = (c.get('values'), c.get('function'))
        return t + ((c['kind'],) if 'kind' in c else ())
    if sec in ('ebcs', 'epbcs', 'ics'):
        return tuple(c[k] for k in ORDER[sec] if k in c)
    if sec == 'lcbcs':
        return tuple(c[k] for k in ORDER[sec] if k in c) + c['arguments']
    if sec == 'integrals':
        return c['order'] if rng.rand() < 0.7 else ('v', c['order'])
    if sec == 'solvers':
        return (c['kind'], {k: v for k, v in c.items() if k != 'kind'})
    if sec == 'functions':
        return (c['function'],)

def write(rng, d, style):
    """Description in a style: short, long (numbered keywords), dicts (sections of long dictionaries) or mixed."""
    out = {}
    num = int(rng.randint(1, 2000))
    secs = [s for s in SECTIONS if d[s]] + ['rest']
    for sec in [secs[i] for i in rng.permutation(len(secs))]:
        if sec == 'rest':
            out.update(copy.deepcopy(d['rest']))
            continue
        names = list(d[sec])
        numbered = [n for n in names if style == 'long' or style == 'mixed' and rng.rand() < 0.5] if sec not in ('functions',) or style == 'long' else []
        for n in names:
            c = copy.copy(d[sec][n])
            c = {k: copy.deepcopy(v) if not callable(v) else v for k, v in c.items()}
            if n in numbered:
                out['%s_%d' % (SINGLE[sec], num)] = dict(name=n, **c)
                num += 1 + int(rng.randint(3))
            elif style == 'dicts' or style == 'mixed' and rng.rand() < 0.3:
                out.setdefault(sec, {})['x%d' % num if rng.rand() < 0.5 else n] = dict(name=n, **c)
                num += 1
            else:
                out.setdefault(sec, {})[n] = short(rng, sec, n, c)
    return out

def text_of(v):
    if isinstance(v, dict):
        return '{' + ', '.join('%r: %s' % (k, text_of(x)) for k, x in v.items()) + '}'
    if isinstance(v, tuple):
        return '(' + ''.join(text_of(x) + ', ' for x in v) + ')'
    if isinstance(v, list):
        return '[' + ', '.join(text_of(x) for x in v) + ']'
    if isinstance(v, type):
        return 'np.' + v.__name__
    if callable(v):
        return v.__name__
    return repr(v)

def module(path, content, name='rvm_desc'):
    m = types.ModuleType('%s_%d' % (name, abs(hash(path)) % 10**6))
    m.__file__ = os.path.join(path, 'desc.py')
    m.__dict__.update(FUNS)
    m.__dict__.update(content)
    sys.modules[m.__name__] = m
    return m

def load(rng, desc, path, how, n):
    """ProblemConf of a description."""
    from sfepy.base.conf import ProblemConf, get_standard_keywords
    req, oth = get_standard_keywords()
    kw = dict(required=req, other=oth, verbose=False)
    if how == 'dict':
        return ProblemConf.from_dict(desc, module(path, {}), **kw)
    if how == 'module':
        return ProblemConf.from_module(module(path, desc), **kw)
    fn = os.path.join(path, 'desc_%d_%d.py' % (n, rng.randint(10**8)))
    lines = ['%s = %s' % (k, text_of(v)) for k, v in desc.items()]
    if how == 'file':
        text = SOURCE + '\n' + '\n'.join(lines) + '\n'
        args = None
    else:
        text = SOURCE + '\ndef define(order=7, name="x"):\n    import numpy as np\n' + ''.join('    %s\n' % x.replace("'i': %d" % 99, "'i': order") for x in lines) + '    return locals()\n'
        args = None
    with open(fn, 'w') as f:
        f.write(text)
    return ProblemConf.from_file(fn, define_args=args, **kw)

def facts(pb):
    """What a problem is, with names as keys."""
    conf, out = pb.conf, {}
    eqs = pb.equations
    for r in pb.domain.regions:
        out['region', r.name] = (r.kind, tuple(r.vertices), r.parent, str(r.extra_options))
    for n, f in pb.fields.items():
        out['field', n] = (str(f.dtype), tuple(f.shape), f.region.name, f.approx_order, f.space, f.poly_space_basis, f.n_nod)
    for v in eqs.variables:
        out['variable', v.name] = (v.kind, v.field.name, getattr(v, 'primary_var_name', None), getattr(v, 'dual_var_name', None), getattr(v, 'history', None), v.n_dof)
    out['order'] = tuple(eqs.variables.ordered_state)
    for e in eqs:
        out['equation', e.name] = tuple((t.name, round(complex(t.sign).real, 12), t.region.name, tuple(t.arg_names), t.integral.order) for t in e.terms)
    for m in pb.get_materials():
        out['material', m.name] = (m.kind, m.function is not None)
    for sec, conds in (('ebcs', pb.ebcs), ('epbcs', pb.epbcs), ('ics', pb.ics)):
        for c in conds or []:
            out[sec, c.name] = (str([r.name for r in c.regions]) if sec == 'epbcs' else c.region.name, getattr(c, 'match', None), str({k: getattr(v, 'name', v) for k, v in c.dofs.items()}), str(getattr(c, 'times', None)))
    for c in pb.lcbcs or []:
        out['lcbcs', c.name] = (str([getattr(r, 'name', r) for r in c.regions]), str(c.dofs), str(getattr(c, 'times', None)), getattr(c.dof_map_fun, 'name', c.dof_map_fun), c.kind,
                                str([getattr(a, 'name', a) for a in c.arguments]))
    for c in conf.variables.values():
        # Also the variables without equations.
        out['defined', c.name] = (c.kind, c.field, c.get('order', None), c.get('dual', None), c.get('like', None), c.get('history', None), str(c.get('special', None)))
    for c in conf.solvers.values():
        out['solver', c.name] = tuple(sorted((k, str(v)) for k, v in c.to_dict().items() if k != 'name'))
    out['options'] = str(sorted(conf.options.to_dict().items(), key=str))
    for f in pb.functions:
        out['function', f.name] = getattr(f.function, '__name__', None)
    out['integrals'] = tuple(sorted((i.name, i.order) for i in pb.integrals)) if pb.integrals is not None else ()
    return out

def build(conf):
    from sfepy.discrete import Problem
    pb = Problem.from_conf(conf)
    if pb.ebcs is None:
        pb.set_bcs(ebcs=conf.ebcs, epbcs=conf.epbcs, lcbcs=conf.lcbcs)
    return pb

def observe(mon, pb):
    """(facts, residual, matrix, solution)"""
    fac = facts(pb)
    return fac, observe_api(mon, pb)

def same(mon, a, b, what):
    fa, na = a
    fb, nb = b
    keys = set(fa) | set(fb)
    bad = [(k, fa.get(k), fb.get(k)) for k in keys if fa.get(k) != fb.get(k)]
    mon.ok('summary', not bad, 'items of problems differ (%s): %s' % (what, str(bad)[:400]))
    if bad:
        return
    for k in na:
        mon.close('solution' if k in ('solution', 'initial') else 'system', nb[k], na[k], rtol=1e-8, atol=1e-9, msg='%s of the same problem (%s)' % (k, what))

def programmatic(d, path):
    """The same problem by the programmatic interface."""
    from sfepy.discrete import FieldVariable, Material, Integral, Equation, Equations, Problem, Function, Functions
    from sfepy.discrete.conditions import Conditions, EssentialBC, InitialCondition, LinearCombinationBC, PeriodicBC
    from sfepy.discrete.fem import Mesh, FEDomain, Field
    from sfepy.solvers.ls import ScipyDirect
    from sfepy.solvers.nls import Newton
    from sfepy.terms import Term
    dom = FEDomain('m', Mesh.from_file(os.path.join(path, 'mesh.vtk')))
    for _ in range(d['rest']['options'].get('refinement_level', 0)):
        dom = dom.refine()
    funs = Functions([Function(k, f) for k, f in FUNS.items()])
    for n, c in d['regions'].items():
        dom.create_region(n, c['select'], c.get('kind', 'cell'), parent=c.get('parent'), extra_options=c.get('extra_options'))
    R = dom.regions
    F = {n: Field.from_args(n, np.complex128 if n == 'fc' else np.float64, c['shape'] if n == 'fc' else 1, R[c['region']], approx_order=c['approx_order'], space=c.get('space', 'H1'), poly_space_basis=c.get('poly_space_basis', 'lagrange'))
         for n, c in d['fields'].items()}
    V = {}
    for n, c in d['variables'].items():
        k = c['kind'].split()[0]
        V[n] = FieldVariable(n, k, F[c['field']], order=c.get('order'), history=c.get('history'), primary_var_name=c.get('dual') if k == 'test' else (c['like'] or '(set-to-None)') if k == 'parameter' else None)
    M = {n: Material(n, kind=c.get('kind', 'time-dependent'), function=FUNS.get(c.get('function')), values=c.get('values')) for n, c in d['materials'].items()}
    I = {n: Integral(n, order=c['order']) for n, c in d['integrals'].items()}
    eqs = []
    from sfepy.discrete.equations import parse_definition
    for n, text in d['rest']['equations'].items():
        terms = None
        for td in parse_definition(text):
            t = Term.new('%s(%s)' % (td.name, td.args), I[td.integral] if td.integral in I else Integral('o%s' % td.integral, order=int(td.integral)), R[td.region], **V, **M)
            t = td.sign * t
            terms = t if terms is None else terms + t
        eqs.append(Equation(n, terms))
    pb = Problem('p', equations=Equations(eqs), functions=funs)
    val = lambda x: funs[x] if isinstance(x, str) else x
    # Conditions of conflicting DOFs are applied in the order of names in problem descriptions.
    per = Conditions([PeriodicBC(n, [R[k] for k in c['region']], c['dofs'], funs[c['match']], times=c.get('times')) for n, c in d['epbcs'].items()])
    lcs = Conditions([LinearCombinationBC(n, [R[k] for k in c['region']], c['dofs'], funs[c['dof_map_fun']], c['kind'], times=c.get('times'),
                                          arguments=tuple(funs[a] for a in c['arguments'])) for n, c in d['lcbcs'].items()])
    pb.set_bcs(epbcs=per, lcbcs=lcs, ebcs=Conditions([EssentialBC(n, R[c['region']], {k: val(x) for k, x in c['dofs'].items()}, times=c.get('times'), key=n) for n, c in d['ebcs'].items()]))
    if d['ics']:
        pb.set_ics(Conditions([InitialCondition(n, R[c['region']], c['dofs']) for n, c in d['ics'].items()]))
    ls = ScipyDirect({})
    pb.set_solver(Newton({k: v for k, v in d['solvers']['newton'].items() if k != 'kind'}, lin_solver=ls))
    return pb

def define(mon, rng, d, path):
    """Arguments of define(), options of a command line, and access to items of a configuration."""
    from sfepy.base.base import Struct
    from sfepy.base.conf import ProblemConf, get_standard_keywords
    req, oth = get_standard_keywords()
    kw = dict(required=req, other=oth, verbose=False)
    desc = write(rng, d, 'short')
    desc['integrals'] = {'i': '@'}
    lines = ''.join('    %s = %s\n' % (k, text_of(v).replace("'@'", 'order')) for k, v in desc.items())
    fn = os.path.join(path, 'args_%d.py' % rng.randint(10**8))
    with open(fn, 'w') as f:
        f.write(SOURCE + '\ndef define(order=7, word="x", *, num=2.0):\n' + lines + '    given = (order, word, num)\n    return locals()\n')
    o, w, x = int(rng.randint(1, 9)), pick(rng, ['abc', 'a1']), float(rng.randint(9)) + 0.5
    for args, want in ((None, (7, 'x', 2.0)), ((o,), (o, 'x', 2.0)), ([o, w], (o, w, 2.0)), ({'word': w, 'num': x}, (7, w, x)), ('order=%d, num=%s' % (o, x), (o, 'x', x)),
                       ('word : %s' % w, (7, w, 2.0)), ('', (7, 'x', 2.0))):
        conf = ProblemConf.from_file(fn, define_args=args, **kw)
        mon.ok('define', conf.given == want, 'arguments %r of define() give %r' % (args, conf.given))
        it = conf.get_item_by_name('integrals', 'i')
        mon.ok('define', it is not None and it.order == want[0], 'integral given by arguments %r' % (args,))
    # Options.
    k, e = float(rng.randint(1, 9)), 10.0**-rng.randint(3, 9)
    opts = Struct(conf="fields: {f1: (real, 1, Omega, %d)}, solvers={newton = (nls.newton, {eps_a=%g})}" % (2, e) if 0 else "fields: {f1: ('real', 1, 'Omega', 2)}, solvers={newton = ('nls.newton', {eps_a=%e})}" % e,
                  app_options="my_option={x=%.1f}, other=[1, 2]" % k)
    opts.conf += ', options = {from_conf = 3, other = 5}'
    conf = ProblemConf.from_file_and_options(fn, opts, **kw)
    mon.ok('define', conf.options.get('from_conf', None) == 3, 'options given by --conf and --options')
    plain = ProblemConf.from_file(fn, **kw)
    f1 = conf.get_item_by_name('fields', 'f1')
    n0, n1 = plain.get_item_by_name('solvers', 'newton'), conf.get_item_by_name('solvers', 'newton')
    mon.ok('define', f1.approx_order == 2, 'field overridden by options: %s' % f1.approx_order)
    mon.ok('define', n1.eps_a == float('%e' % e) and n1.i_max == n0.i_max and n1.kind == n0.kind, 'solver overridden by options: %s' % n1)
    mon.ok('define', conf.options.my_option['x'] == k and conf.options.my_option['deep'] == [1, 2] and conf.options.other == [1, 2] and conf.options.nls == 'newton', 'options overridden: %s' % conf.options)
    mon.ok('define', plain.options.my_option['x'] == 'y' and not hasattr(plain.options, 'other'), 'options of the other configuration changed')
    # Other configurations.
    a, b = ProblemConf.from_file(fn, **kw), ProblemConf.from_file(fn, **kw)
    a.edit('materials', {'only': ({'z': 1.0},)})
    mon.ok('define', [m.name for m in a.materials.values()] == ['only'] and len(b.materials) == len(plain.materials), 'edit()')
    a.my_new = 3
    miss = ProblemConf.from_file(fn, **kw)
    miss.add_missing(a)
    mon.ok('define', miss.my_new == 3 and len(miss.materials) == len(plain.materials) + 1, 'add_missing()')
    b.update_conf(a)
    mon.ok('define', b.my_new == 3 and set(a.materials) <= set(b.materials) and set(plain.materials) <= set(b.materials), 'update_conf()')
    last = ProblemConf.from_file(fn, **kw)
    c = pickle.loads(pickle.dumps(last))
    fields = [sorted((f.name, str(f.dtype), f.approx_order) for f in q.fields.values()) for q in (plain, c)]
    mon.ok('define', fields[0] == fields[1] and c.equations == plain.equations and str(c.options) == str(plain.options), 'pickled configuration')
    mon.ok('define', callable(plain.get_function('get_src')) and plain.get_function(None) is None and plain.get_function(get_src) is get_src, 'get_function()')
    mon.raises('define', ValueError, plain.get_function, 'nofun_at_all')

def run_syntax(mon, case):
    from sfepy.base.conf import ProblemConf, get_standard_keywords
    rng = gen.rngof(case)
    path = tempfile.mkdtemp()
    try:
        geom = pick(rng, ['2_3', '2_4'])
        raw = gen.raw_mesh(rng, geom, shape=[3 + rng.randint(2), 3], jitter=0.0, affine=False, holes=0.0)
        mesh = gen.to_mesh(raw)
        X = mesh.coors
        lo, hi = X.min(0), X.max(0)
        mesh.coors[:] = (X - lo) / (hi - lo)
        mesh.write(os.path.join(path, 'mesh.vtk'), io='auto')
        d = abstract(rng, geom == '2_4')
        d['rest']['filename_mesh'] = 'mesh.vtk'
        d['rest']['options']['absolute_mesh_path'] = False
        define(mon, rng, d, path)
        req, oth = get_standard_keywords()
        kw = dict(required=req, other=oth, verbose=False)
        ref = None
        styles = ['short', 'long', 'dicts', 'mixed']
        for n, style in enumerate(styles[i] for i in rng.permutation(4)):
            how = pick(rng, ['dict', 'module', 'file', 'define'])
            desc = write(rng, d, style)
            keep = copy.deepcopy({k: v for k, v in desc.items()})
            conf = load(rng, desc, path, how, n)
            out = observe(mon, build(conf))
            mon.sig('syntax', style, how, len(d['variables']))
            if ref is None:
                ref, refstyle = out, (style, how)
            else:
                same(mon, ref, out, '%s %s and %s %s' % (refstyle + (style, how)))
            if n == 0:
                # The description can be used again.
                again = observe(mon, build(load(rng, desc, path, 'dict', n)))
                same(mon, ref, again, 'second use of %s' % style)
        # By objects.
        pb = programmatic(d, path)
        out = observe_api(mon, pb)
        for k in out:
            mon.close('solution' if k in ('solution', 'initial') else 'system', out[k], ref[1][k], rtol=1e-8, atol=1e-9, msg='%s of the same problem (description and objects)' % k)
        # Overrides.
        d2 = copy.deepcopy({k: v for k, v in d.items()})
        over = {}
        for what in set(pick(rng, ['material', 'order', 'option', 'solver', 'ebc', 'equation', 'integral']) for _ in range(3)):
            if what == 'material':
                v = d2['materials']['m']['values']
                v['k'] = {'Omega': 3.5} if isinstance(v['k'], dict) else 3.5
            elif what == 'order':
                d2['fields']['f1']['approx_order'] = 3 - d['fields']['f1']['approx_order']
            elif what == 'option':
                d2['rest']['options']['my_option'] = {'deep': [3], 'x': 'y'}
                over.setdefault('options', {})['my_option'] = {'deep': [3]}
            elif what == 'solver':
                d2['solvers']['newton']['i_max'] = 5
                over.setdefault('solvers', {})['newton'] = ('nls.newton', {'i_max': 5})
            elif what == 'ebc':
                n0 = list(d2['ebcs'])[0]
                d2['ebcs'][n0]['dofs'] = {'t.0': 0.77}
            elif what == 'equation':
                d2['rest']['equations']['eq1'] = 'dw_laplace.i.Omega(m.k, s, t) = dw_volume_lvf.i.Omega(src.val, s)'
                over.setdefault('equations', {})['eq1'] = d2['rest']['equations']['eq1']
            else:
                d2['integrals']['i']['order'] += 1
            sec = dict(material='materials', order='fields', ebc='ebcs', integral='integrals').get(what)
            if sec:
                n0 = dict(material='m', order='f1', integral='i').get(what) or list(d2['ebcs'])[0]
                over.setdefault(sec, {})[n0] = short(np.random.RandomState(0), sec, n0, copy.deepcopy(d2[sec][n0]))
        base = write(np.random.RandomState(1), d, 'short')
        base['integrals'] = {k: v['order'] for k, v in d['integrals'].items()}
        over.get('integrals', {}).update({k: d2['integrals'][k]['order'] for k in over.get('integrals', {})})
        before = repr(base)
        want = observe(mon, build(ProblemConf.from_dict(write(rng, d2, 'short'), module(path, {}), **kw)))
        if rng.rand() < 0.5:
            conf = ProblemConf.from_dict(base, module(path, {}), override=copy.deepcopy(over), **kw)
        else:
            mod = module(path, base)
            conf = ProblemConf.from_module(mod, override=copy.deepcopy(over), **kw)
        got = observe(mon, build(conf))
        mon.event('override')
        same(mon, want, got, 'override by %r' % (over,))
        mon.ok('unchanged', repr(base) == before, 'the description is changed by ProblemConf with override %r' % (over,))
        got = observe(mon, build(ProblemConf.from_dict(base, module(path, {}), **kw)))
        same(mon, ref, got, 'after override of another instance')
        mon.sig('override', tuple(sorted(over)))
    finally:
        shutil.rmtree(path, ignore_errors=True)

def observe_api(mon, pb):
    from sfepy.solvers.ts import TimeStepper
    ts = TimeStepper(0.0, 1.0, n_step=3)
    pb.time_update(ts)
    pb.update_materials(ts, verbose=False)
    v = pb.get_initial_state()
    ic = v.get_state(False, force=True).copy()
    v.apply_ebc()
    ev = pb.get_evaluator()
    x = v.get_state(pb.active_only, force=True)
    x = np.cos(np.arange(len(x)))
    return dict(initial=ic, residual=np.asarray(ev.eval_residual(x.copy())), matrix=ev.eval_tangent_matrix(x.copy()).toarray(),
                solution=pb.solve(save_results=False, verbose=False).get_state(False, force=True))

def run_invalid(mon, case):
    """Missing and unknown items."""
    from sfepy.base.conf import ProblemConf, get_standard_keywords
    rng = gen.rngof(case)
    path = tempfile.mkdtemp()
    try:
        mesh = gen.to_mesh(gen.raw_mesh(rng, '2_4', shape=[3, 3], jitter=0.0, affine=False, holes=0.0))
        X = mesh.coors
        mesh.coors[:] = (X - X.min(0)) / (X.max(0) - X.min(0))
        mesh.write(os.path.join(path, 'mesh.vtk'), io='auto')
        req, oth = get_standard_keywords()
        kw = dict(required=req, other=oth, verbose=False)

        def good():
            d = abstract(rng)
            d['rest']['filename_mesh'] = 'mesh.vtk'
            return d
        # Required sections.
        for sec, key in (('regions', 'region'), ('fields', 'field'), ('variables', 'variable'), ('materials', 'material'), ('ebcs', 'ebc'), ('solvers', 'solver'), ('rest', 'equations'), ('rest', 'filename_mesh')):
            desc = write(rng, good(), pick(rng, ['short', 'long', 'mixed', 'dicts']))
            for k in list(desc):
                if k == key or k == sec or k.startswith(key + '_'):
                    del desc[k]
            try:
                ProblemConf.from_dict(desc, module(path, {}), **kw)
                mon.violate('missing', 'missing %s accepted' % key)
            except ValueError as exc:
                mon.ok('missing', key in str(exc), 'missing %s reported as %s' % (key, exc))
        # Unknown names.
        for what in ('region of ebc', 'region of field', 'field', 'region of term', 'variable', 'material', 'parameter', 'term', 'function', 'solver', 'mesh', 'dof', 'dual', 'function of ebc'):
            d = good()
            eq = d['rest']['equations']
            if what == 'region of ebc':
                list(d['ebcs'].values())[0]['region'] = 'Nowhere'
            elif what == 'region of field':
                d['fields']['f1']['region'] = 'Nowhere'
            elif what == 'field':
                d['variables']['t']['field'] = 'nofield'
            elif what == 'region of term':
                eq['eq1'] = eq['eq1'].replace('dw_laplace.i.Omega', 'dw_laplace.i.Nowhere')
            elif what == 'variable':
                eq['eq1'] = eq['eq1'].replace('s, t)', 's, zz)', 1)
            elif what == 'material':
                eq['eq1'] = eq['eq1'].replace('m.k', 'nomat.k')
            elif what == 'parameter':
                eq['eq1'] = eq['eq1'].replace('m.k', 'm.noparam')
            elif what == 'term':
                eq['eq1'] = eq['eq1'].replace('dw_laplace', 'dw_lapalce')
            elif what == 'function':
                d['materials']['src']['function'] = 'nofun'
            elif what == 'solver':
                d['solvers']['newton']['kind'] = 'nls.nonewton'
            elif what == 'mesh':
                d['rest']['filename_mesh'] = 'nomesh.vtk'
            elif what == 'dof':
                list(d['ebcs'].values())[0]['dofs'] = {'t.3': 1.0}
            elif what == 'dual':
                d['variables']['s']['dual'] = 'nobody'
            elif what == 'function of ebc':
                list(d['ebcs'].values())[0]['dofs'] = {'t.0': 'nofun'}
            desc = write(rng, d, pick(rng, ['short', 'long']))
            try:
                observe(mon, build(ProblemConf.from_dict(desc, module(path, {}), **kw)))
                mon.violate('diagnosed', 'unknown %s accepted' % what)
            except Exception as exc:
                mon.event('diagnosed')
                mon.sig('diagnosed', what, type(exc).__name__)
    finally:
        shutil.rmtree(path, ignore_errors=True)

def run_defaults(mon, case):
    """Options of solvers."""
    from sfepy.base.base import Struct
    from sfepy.solvers import solver_table
    from sfepy.solvers.solvers import Solver
    import sfepy.solvers as S
    rng = gen.rngof(case)
    try:
        from sfepy.base.base import load_classes
        from sfepy.solvers import register_solver
    except ImportError:
        pass
    for kind in sorted(solver_table):
        cls = solver_table[kind]
        par = list(getattr(cls, '_parameters', []))
        if not par or par[0][0] != 'name':
            par = Solver._parameters + par
        for _ in range(4):
            conf, kwargs = {}, {}
            vals = [3, 0, False, 'x', 2.5, [], 0.0, '']
            missing = []
            for name, _, default, required, _ in par:
                if name in ('*', 'name', 'kind'):
                    continue
                r = rng.rand()
                if r < 0.3:
                    conf[name] = pick(rng, vals)
                elif r < 0.5:
                    kwargs[name] = pick(rng, vals)
                elif r < 0.6:
                    conf[name], kwargs[name] = pick(rng, vals), pick(rng, vals)
                elif required and default is None:
                    missing.append(name)
            extra = {}
            star = any(p[0] == '*' for p in par)
            if star and rng.rand() < 0.5:
                extra['my_extra'] = pick(rng, vals)
            c = Struct(name='n', kind=kind, **conf, **extra)
            try:
                out = cls.process_conf(c, dict(kwargs))
            except ValueError as exc:
                mon.ok('defaults', any(m in str(exc) for m in missing), 'options of %s refused: %s, given %s and %s' % (kind, exc, conf, kwargs))
                continue
            except TypeError:
                mon.event('other_signature')
                break
            mon.ok('defaults', not missing, 'missing option %s of %s accepted' % (missing, kind))
            for name, _, default, required, _ in par:
                if name in ('*', 'name', 'kind'):
                    continue
                want = kwargs[name] if name in kwargs else conf[name] if name in conf else default
                got = getattr(out, name, 'absent')
                mon.ok('defaults', type(got) == type(want) and got == want, 'option %s of %s: %r, expected %r' % (name, kind, got, want))
            mon.ok('defaults', all(getattr(out, k, 'absent') == v for k, v in extra.items()), 'additional option of %s' % kind)
            mon.ok('defaults', set(c.to_dict()) == {'name', 'kind', *conf, *extra}, 'given options changed')
        mon.sig('solver', kind)

def run_dofs(mon, case):
    """Names of DOFs in conditions."""
    from sfepy.discrete import FieldVariable, Material, Integral, Equation, Equations, Problem
    from sfepy.discrete.conditions import Conditions, EssentialBC
    from sfepy.discrete.fem import FEDomain, Field
    from sfepy.terms import Term
    rng = gen.rngof(case)
    dim = 2 + rng.randint(2)
    dom = FEDomain('d', gen.to_mesh(gen.raw_mesh(rng, {2: '2_4', 3: '3_8'}[dim], shape=[2] * dim, jitter=0.0, affine=False, holes=0.0)))
    om = dom.create_region('Omega', 'all')
    x0 = dom.mesh.coors[:, 0].min()
    r1 = dom.create_region('R', 'vertices in (x < %.10f)' % (x0 + 1e-6), 'vertex', allow_empty=True)
    if not len(r1.vertices):
        r1 = dom.create_region('R1', 'vertex 0, 1', 'vertex')
    vn = pick(rng, ['u', 'disp', 'pgrad', 'gradient', 'u_1', 'all', 'd'])
    f = Field.from_args('f', np.float64, dim, om, approx_order=1 + rng.randint(2))
    u = FieldVariable(vn, 'unknown', f)
    v = FieldVariable('v_v', 'test', f, primary_var_name=vn)
    eqs = Equations([Equation('e', Term.new('dw_dot(v_v, %s)' % vn, Integral('i', order=2), om, v_v=v, **{vn: u}))])
    pb = Problem('p', equations=eqs)
    comps = sorted(int(k) for k in rng.permutation(dim)[:1 + rng.randint(dim)])
    val = rng.rand(len(comps))
    nods = f.get_dofs_in_region(r1, merge=True)
    ref = np.zeros((f.n_nod, dim))
    for k, c in enumerate(comps):
        ref[nods, c] = val[k]
    forms = [{'%s.%d' % (vn, c): float(val[k]) for k, c in enumerate(comps)}]
    if len(set(comps)) == dim:
        forms += [{vn + '.all': [float(a) for a in val]}, {vn + '.all': tuple(float(a) for a in val)}, {vn + '.all': np.array(val)}]
    forms += [{'%s.[%s]' % (vn, pick(rng, [',', ', ', ' ,']).join(str(c) for c in comps)): [float(a) for a in val]}]
    forms.append({'%s.[%s]' % (vn, ','.join(str(c) for c in comps)): (lambda ts, coors, **kw: np.tile(val, (len(coors), 1)))})
    from sfepy.discrete import Function
    for dofs in forms:
        dofs = {k: Function('fun', x) if callable(x) else x for k, x in dofs.items()}
        try:
            pb.set_bcs(ebcs=Conditions([EssentialBC('e', r1, dofs)]))
            pb.time_update()
            st = pb.create_state() if hasattr(pb, 'create_state') else pb.get_variables()
            vs = pb.get_variables()
            vs.init_state()
            vs.apply_ebc()
            got = vs.get_state(False, force=True).reshape((-1, dim))
        except Exception as exc:
            mon.violate('dofs', 'condition %s of %s refused: %s %s' % (list(dofs), vn, type(exc).__name__, exc))
            continue
        mon.close('dofs', got, ref, rtol=1e-12, msg='values of condition %s' % (list(dofs),))
        mon.sig('dofs', vn, dim, len(comps), str(list(dofs))[:12])
