"""
The documented integrands of terms, as numpy functions of values in quadrature
points (independent of the implementation of the terms).

Each formula takes the context and the arguments of a term in the order of its
argument types:
- variables: .val (e, q, c), .G (e, q, c, d) with G[i, j] = d u_i / d x_j,
  .s, .g (scalar value and gradient), .div, .e (strain tensor),
- materials: arrays (e, q, r, c),
and returns an array (e, q, ...).
"""
import numpy as np

es = lambda sub, *a: np.einsum(sub, *a, optimize=False)
VOIGT = {1: [(0, 0)], 2: [(0, 0), (1, 1), (0, 1)],
         3: [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]}

class Var:
    def __init__(self, val, G=None):
        self.val = val
        self.G = G
        if G is not None and G.shape[2] == G.shape[3]:
            self.div = es('eqii->eq', G)
            self.e = 0.5 * (G + np.swapaxes(G, 2, 3))

    @property
    def s(self):
        return self.val[..., 0]

    @property
    def g(self):
        return self.G[..., 0, :]

def sca(m):
    return 1.0 if m is None else m[..., 0, 0]

def vec(m):
    """A material given as a column."""
    return m[..., 0]

def tens(m, d):
    """A symmetric tensor in the storage of symmetric tensors or full."""
    if m.shape[-2:] == (d, d) and d > 1:
        return m
    out = np.zeros(m.shape[:2] + (d, d), m.dtype)
    for k, (i, j) in enumerate(VOIGT[d]):
        out[..., i, j] = out[..., j, i] = m[..., k, 0]
    return out

def tens3(m, d):
    """g_kij from (D, S)."""
    out = np.zeros(m.shape[:3] + (d, d), m.dtype)
    for k, (i, j) in enumerate(VOIGT[d]):
        out[..., i, j] = out[..., j, i] = m[..., k]
    return out

def tens4(m, d):
    """D_ijkl from (S, S) or (D2, D2)."""
    s = d * (d + 1) // 2
    if m.shape[-1] == d * d and d > 1:
        return m.reshape(m.shape[:2] + (d, d, d, d))
    out = np.zeros(m.shape[:2] + (d,) * 4, m.dtype)
    for a, (i, j) in enumerate(VOIGT[d]):
        for b, (k, l) in enumerate(VOIGT[d]):
            for p in {(i, j), (j, i)}:
                for r in {(k, l), (l, k)}:
                    out[(Ellipsis,) + p + r] = m[..., a, b]
    return out

def store(T):
    """Storage of a symmetric tensor."""
    d = T.shape[-1]
    return np.stack([T[..., i, j] for i, j in VOIGT[d]], -1)

def store2(T):
    """... with doubled shear components."""
    d = T.shape[-1]
    return np.stack([T[..., i, j] * (1 if i == j else 2) for i, j in VOIGT[d]], -1)

def adv(b, u):
    """(b . grad) u with b (e, q, d)."""
    return es('eqj,eqij->eqi', b, u.G)

dot = lambda a, b: es('eqi,eqi->eq', a, b)
dd = lambda a, b: es('eqij,eqij->eq', a, b)

def hook(D, a, b):
    return es('eqijkl,eqij,eqkl->eq', D, a, b)

def sd4(D, m):
    """D hat of elasticity shape derivatives."""
    dV = m.G
    return (D * m.div[..., None, None, None, None]
            - es('eqijkr,eqlr->eqijkl', D, dV) - es('eqirkl,eqjr->eqijkl', D, dV))

def sd2(K, m):
    return (K * m.div[..., None, None] - es('eqil,eqjl->eqij', K, m.G)
            - es('eqkj,eqik->eqij', K, m.G))

def sdI(m, d):
    """delta_ij div V - dV_j/dx_i"""
    return np.eye(d) * m.div[..., None, None] - np.swapaxes(m.G, -1, -2)

def sdgg(m, a, b):
    """I hat grad v : grad u"""
    return (dd(a.G, b.G) * m.div - es('eqis,eqil,eqls->eq', a.G, b.G, m.G)
            - es('eqks,eqkj,eqjs->eq', b.G, a.G, m.G))

def ident(X, c):
    return np.eye(X.d) * np.ones(X.shape + (1, 1)) * \
        (1.0 if c is None else sca(c)[..., None, None])

def sigma(X, c):
    """Stress of traction-like materials."""
    if c is None or c.shape[-2:] == (1, 1):
        return ident(X, c)
    return tens(c, X.d)

def traction(X, c):
    """sigma . n or a given traction vector."""
    if c is not None and c.shape[-2:] == (X.d, 1) and X.d > 1 and not X.sym(c):
        return vec(c)
    return es('eqij,eqj->eqi', sigma(X, c), X.n)

def dotmat(X, c, v, u):
    if c is None or c.shape[-2:] == (1, 1):
        return sca(c) * dot(v.val, u.val)
    return es('eqi,eqij,eqj->eq', v.val, c, u.val)

def flux(K, u, n):
    return es('eqi,eqij,eqj->eq', n, K, u.g)

def grad_like2(X, c, w):
    """Contracted by derivatives."""
    if c is None or c.shape[-2:] == (1, 1):
        return w.G * (1.0 if c is None else c[..., :1, :1])
    return es('eqjk,eqij->eqik', c, w.G)

def grad_like(X, c, w):
    """c grad w with c scalar, (N, 1) or (N, N), as (e, q, comp, d)."""
    if c is None or c.shape[-2:] == (1, 1):
        return w.G * (1.0 if c is None else c[..., :1, :1])
    if c.shape[-1] == 1:
        return es('eqi,eqij->eqj', vec(c), w.G)
    return es('eqik,eqkj->eqij', c, w.G)

def wave(k, v):
    """g_ij(v) = 1/2 (v_i k_j + k_i v_j)"""
    k = np.asarray(k).ravel()
    t = v.val[..., :, None] * k
    return 0.5 * (t + np.swapaxes(t, -1, -2))

def iso(d, lam, mu, a, b):
    return sca(lam) * a.div * b.div + 2 * sca(mu) * dd(a.e, b.e)

F = {
    'dw_zero': lambda X, v, u: 0 * v.val[..., 0],
    'dw_integrate': lambda X, c, q: sca(c) * q.s,
    'dw_dot': dotmat,
    'dw_volume_lvf': lambda X, f, v: dot(vec(f), v.val),
    'dw_volume_nvf': lambda X, f, df, q, p: q.s * f(p.s),
    'dw_nl_diffusion': lambda X, f, df, q, p: dot(q.g, p.g) * f(p.s),
    'dw_laplace': lambda X, c, q, p: sca(c) * dot(q.g, p.g),
    'dw_diffusion': lambda X, K, q, p: es('eqij,eqi,eqj->eq', K, q.g, p.g),
    'dw_diffusion_r': lambda X, K, q: dot(vec(K), q.g),
    'dw_diffusion_coupling': lambda X, K, a, b: b.s * dot(vec(K), a.g),
    'dw_convect': lambda X, v, u: dot(adv(u.val, u), v.val),
    'dw_lin_convect': lambda X, v, w, u: dot(adv(w.val, u), v.val),
    'dw_lin_convect2': lambda X, c, v, u: dot(adv(vec(c), u), v.val),
    'dw_convect_v_grad_s': lambda X, q, u, p: q.s * dot(u.val, p.g),
    'dw_adj_convect1': lambda X, v, w, u: dot(adv(v.val, u), w.val),
    'dw_adj_convect2': lambda X, v, w, u: dot(adv(u.val, v), w.val),
    'dw_adj_div_grad': lambda X, w, n, v, u: sca(w) * sca(n) * dd(v.G, u.G),
    'dw_div_grad': lambda X, c, v, u: sca(c) * dd(v.G, u.G),
    'dw_div': lambda X, c, v: sca(c) * v.div,
    'dw_stokes': lambda X, c, v, p: sca(c) * p.s * v.div,
    'dw_st_grad_div': lambda X, c, v, u: sca(c) * u.div * v.div,
    'dw_advect_div_free': lambda X, y, q, p: q.s * dot(vec(y), p.g),
    'dw_s_dot_mgrad_s': lambda X, y, q, p: q.s * dot(vec(y), p.g),
    'dw_s_dot_grad_i_s': lambda X, i, q, p: q.s * p.g[..., int(np.ravel(i)[0])],
    'dw_v_dot_grad_s': lambda X, c, v, p: sca(c) * dot(v.val, p.g)
        if c is None or c.shape[-2:] == (1, 1) else es('eqi,eqij,eqj->eq', v.val, c, p.g),
    'dw_vm_dot_s': lambda X, c, v, p: dot(v.val, vec(c)) * p.s,
    'dw_electric_source': lambda X, c, s, p: sca(c) * s.s * dot(p.g, p.g),
    'dw_lin_elastic': lambda X, D, v, u: hook(tens4(D, X.d), v.e, u.e),
    'dw_lin_elastic_iso': lambda X, l, m, v, u: iso(X.d, l, m, v, u),
    'dw_nonsym_elastic': lambda X, D, v, u: hook(tens4(D, X.d), v.G, u.G),
    'dw_lin_prestress': lambda X, s, v: dd(tens(s, X.d), v.G),
    'dw_lin_strain_fib': lambda X, D, d, v: hook(tens4(D, X.d), v.e,
                                                es('eqi,eqj->eqij', vec(d), vec(d))),
    'dw_biot': lambda X, a, v, p: p.s * dd(tens(a, X.d), v.G),
    'dw_piezo_coupling': lambda X, g, v, p: es('eqkij,eqij,eqk->eq', tens3(g, X.d), v.e, p.g),
    'dw_elastic_wave': lambda X, D, k, v, u: hook(tens4(D, X.d), wave(k, v), wave(k, u)),
    'dw_elastic_wave_cauchy': lambda X, D, k, v, u: hook(tens4(D, X.d), wave(k, v), u.e),
    'dw_stokes_wave': lambda X, k, v, u: (v.val @ np.ravel(k)) * (u.val @ np.ravel(k)),
    'dw_stokes_wave_div': lambda X, k, v, u: (v.val @ np.ravel(k)) * u.div,
    'dw_bc_newton': lambda X, a, o, q, p: sca(a) * q.s * (p.s - sca(o)),
    'dw_surface_ltr': lambda X, c, v: dot(v.val, traction(X, c)),
    'dw_surface_ndot': lambda X, c, q: q.s * dot(vec(c), X.n),
    'dw_surface_flux': lambda X, K, q, p: q.s * flux(ident(X, None) if K is None else K,
                                                   p, X.n),
    'dw_non_penetration': lambda X, c, v, l: sca(c) * l.s * dot(v.val, X.n),
    'dw_non_penetration_p': lambda X, c, v, u: sca(c) * dot(v.val, X.n) * dot(u.val, X.n),
    'dw_st_pspg_p': lambda X, t, q, p: sca(t) * dot(q.g, p.g),
    'dw_st_pspg_c': lambda X, t, q, b, u: sca(t) * dot(adv(b.val, u), q.g),
    'dw_st_supg_c': lambda X, t, v, b, u: sca(t) * dot(adv(b.val, u), adv(b.val, v)),
    'dw_st_supg_p': lambda X, t, v, b, p: sca(t) * dot(p.g, adv(b.val, v)),
    'dw_st_adj_supg_c': lambda X, t, v, u, w: sca(t) * (
        dot(adv(v.val, u), adv(u.val, w)) + dot(adv(u.val, u), adv(v.val, w))),
    'dw_st_adj1_supg_p': lambda X, t, v, w, p: sca(t) * dot(p.g, adv(v.val, w)),
    'dw_st_adj2_supg_p': lambda X, t, v, u, r: sca(t) * dot(r.g, adv(v.val, u)),
    'dw_mass_ad': lambda X, c, v, u: sca(c) * dot(v.val, u.val),
    'dw_lin_elastic_l_ad': lambda X, l, m, v, u: iso(X.d, l, m, v, u),
    'dw_lin_elastic_yp_ad': lambda X, E, n, v, u: (lambda E, n: (
        E * n / ((1 + n) * (1 - 2 * n)) * v.div * u.div
        + E / (1 + n) * dd(v.e, u.e)))(sca(E), sca(n)),
    'd_of_ns_min_grad': lambda X, w, n, p: 0.5 * sca(w) * sca(n) * es('eqij,eqij->eq', p.G, p.G),

    # Evaluation terms.
    'ev_integrate': lambda X, c, u: u.val * (1.0 if c is None else c[..., 0]),
    'ev_volume': lambda X, u: np.ones(X.shape),
    'ev_volume_surface': lambda X, u: dot(X.x, X.n) / X.d,
    'ev_surface_moment': lambda X, x0, u: es('eqi,eqj->eqij', X.n, X.x - np.ravel(x0)),
    'ev_integrate_mat': lambda X, c, u: c,
    'ev_grad': lambda X, c, u: grad_like(X, c, u),
    'ev_div': lambda X, c, u: sca(c) * u.div,
    'ev_cauchy_strain': lambda X, u: store2(u.e),
    'ev_cauchy_stress': lambda X, D, u: store(es('eqijkl,eqkl->eqij', tens4(D, X.d), u.e)),
    'ev_biot_stress': lambda X, a, p: -a[..., 0] * p.val,
    'ev_diffusion_velocity': lambda X, K, p: -es('eqij,eqj->eqi', K, p.g),
    'ev_piezo_strain': lambda X, g, u: es('eqkij,eqij->eqk', tens3(g, X.d), u.e),
    'ev_piezo_stress': lambda X, g, p: store(es('eqkij,eqk->eqij', tens3(g, X.d), p.g)),
    'ev_surface_flux': lambda X, K, p: flux(K, p, X.n),
    'ev_surface_piezo_flux': lambda X, g, u: es('eqkij,eqij,eqk->eq', tens3(g, X.d), u.e, X.n),
    'ev_def_grad': lambda X, u: u.G + np.eye(X.d),

    # Shape derivatives.
    'ev_sd_dot': lambda X, a, b, m: dot(a.val, b.val) * m.div,
    'ev_sd_div': lambda X, u, p, m: p.s * (u.div * m.div - es('eqki,eqik->eq', m.G, u.G)),
    'ev_sd_div_grad': lambda X, c, u, w, m: sca(c) * sdgg(m, u, w),
    'ev_sd_convect': lambda X, u, w, m: dot(adv(u.val, u), w.val) * m.div
        - es('eqk,eqjk,eqij,eqi->eq', u.val, m.G, u.G, w.val),
    'ev_sd_diffusion': lambda X, K, q, p, m: es('eqij,eqi,eqj->eq', sd2(K, m), q.g, p.g),
    'ev_sd_lin_elastic': lambda X, D, w, u, m: hook(sd4(tens4(D, X.d), m), w.G, u.G),
    'ev_sd_piezo_coupling': lambda X, g, u, p, m: (lambda g: es(
        'eqkij,eqij,eqk->eq', g * m.div[..., None, None, None]
        - es('eqkil,eqjl->eqkij', g, m.G) - es('eqlij,eqkl->eqkij', g, m.G),
        u.G, p.g))(tens3(g, X.d)),
    'ev_sd_st_grad_div': lambda X, c, u, w, m: sca(c) * (
        u.div * w.div * m.div - es('eqik,eqki->eq', u.G, m.G) * w.div
        - u.div * es('eqik,eqki->eq', w.G, m.G)),
    'ev_sd_st_pspg_c': lambda X, c, b, u, r, m: sca(c) * (
        dot(r.g, adv(b.val, u)) * m.div
        - es('eqk,eqki,eqi->eq', r.g, m.G, adv(b.val, u))
        - es('eqi,eqk,eqik->eq', r.g, adv(b.val, m), u.G)),
    'ev_sd_st_pspg_p': lambda X, c, r, p, m: sca(c) * (
        dot(r.g, p.g) * m.div - es('eqk,eqkj,eqj->eq', r.g, m.G, p.g)
        - es('eqj,eqkj,eqk->eq', r.g, m.G, p.g)),
    'ev_sd_st_supg_c': lambda X, c, b, u, w, m: sca(c) * (
        dot(adv(b.val, u), adv(b.val, w)) * m.div
        - es('eqi,eqki,eqk->eq', adv(b.val, m), u.G, adv(b.val, w))
        - es('eqk,eqi,eqki->eq', adv(b.val, u), adv(b.val, m), w.G)),

    # Multi-linear terms.
    'de_div': lambda X, c, v: sca(c) * v.div,
    'de_grad': lambda X, c, w: grad_like2(X, c, w),
    'de_cauchy_stress': lambda X, D, u: store(es('eqijkl,eqkl->eqij', tens4(D, X.d), u.e)),
    'de_convect': lambda X, c, v, u: sca(c) * dot(adv(u.val, u), v.val),
    'de_stokes_traction': lambda X, c, v, u: sca(c) * es('eqi,eqij,eqj->eq', v.val, u.G, X.n),
    'de_surface_piezo_flux': lambda X, g, q, u: q.s * es('eqkij,eqij,eqk->eq', tens3(g, X.d),
                                                       u.e, X.n),
    'de_mass': lambda X, r, l, b, v, u: sca(r) * dot(v.val, u.val),
    'de_m_flexo': lambda X, u, a: es('eqij,eqij->eq', u.G, a.val.reshape(u.G.shape)),
    'de_m_flexo_coupling': lambda X, f, w, p: es(
        'eqia,eqa,eqi->eq', f, flexo(w, X.d), p.g),
    'de_m_sg_elastic': lambda X, a, v, w: es('eqab,eqa,eqb->eq', a, flexo(v, X.d),
                                           flexo(w, X.d)),
    'de_sd_dot': lambda X, c, v, u, m: dotmat(X, c, v, u) * m.div,
    'de_sd_stokes': lambda X, c, v, p, m: sca(c) * p.s * es('eqij,eqij->eq', sdI(m, X.d), v.G),
    'de_sd_v_dot_grad_s': lambda X, c, v, p, m: sca(c) * es(
        'eqij,eqj,eqi->eq', sdI(m, X.d), p.g, v.val),
    'de_sd_surface_ltr': lambda X, c, v, m: (lambda s: es(
        'eqi,eqij,eqj->eq', v.val, s * m.div[..., None, None] - es('eqik,eqjk->eqij', s, m.G),
        X.n))(sigma(X, c)),
}

def flexo(w, d):
    """e_ij,k of a tensor (D2) variable, stored as (D, S) with index of the derivative first, shear components doubled."""
    W = w.G.reshape(w.G.shape[:2] + (d, d, d))
    S = 0.5 * (W + np.swapaxes(W, 2, 3))
    return np.stack([S[..., i, j, k] * (1 if i == j else 2) for k in range(d)
                     for i, j in VOIGT[d]], -1)

ALIAS = {
    'dw_volume_dot': 'dw_dot', 'dw_surface_dot': 'dw_dot',
    'dw_volume_integrate': 'dw_integrate', 'dw_surface_integrate': 'dw_integrate',
    'ev_volume_integrate': 'ev_integrate', 'ev_surface_integrate': 'ev_integrate',
    'ev_volume_integrate_mat': 'ev_integrate_mat',
    'ev_surface_integrate_mat': 'ev_integrate_mat',
    'ev_surface_grad': 'ev_grad', 'ev_surface_div': 'ev_div',
    'ev_cauchy_strain_s': 'ev_cauchy_strain', 'ev_sd_volume_dot': 'ev_sd_dot',
    'd_volume': 'ev_volume', 'd_surface': 'ev_volume', 'd_volume_surface': 'ev_volume_surface',
    'd_surface_moment': 'ev_surface_moment', 'd_surface_flux': 'ev_surface_flux',
    'de_integrate': 'dw_integrate', 'de_dot': 'dw_dot', 'de_diffusion': 'dw_diffusion',
    'de_laplace': 'dw_laplace', 'de_div_grad': 'dw_div_grad',
    'de_lin_convect': 'dw_lin_convect', 'de_lin_elastic': 'dw_lin_elastic',
    'de_nonsym_elastic': 'dw_nonsym_elastic', 'de_stokes': 'dw_stokes',
    'de_non_penetration_p': 'dw_non_penetration_p', 'de_s_dot_mgrad_s': 'dw_s_dot_mgrad_s',
    'de_surface_ltr': 'dw_surface_ltr', 'de_surface_flux': 'dw_surface_flux',
    'de_sd_lin_elastic': 'ev_sd_lin_elastic', 'de_sd_diffusion': 'ev_sd_diffusion',
    'de_sd_piezo_coupling': 'ev_sd_piezo_coupling', 'de_sd_div_grad': 'ev_sd_div_grad',
}
ALIAS['ev_surface_flux2'] = 'ev_surface_flux'
ALIAS['ev_sd_surface_ltr'] = 'de_sd_surface_ltr'
F['ev_surface_flux'] = lambda X, K, p: flux(ident(X, None) if K is None else K, p, X.n)

def formula(name):
    return F.get(ALIAS.get(name, name))
