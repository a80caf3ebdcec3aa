"""Independent reference computations (no composipy import).

Classical laminate theory is written from the compliance matrix and the engineering strain
transform; the Ritz matrices from Legendre polynomials and Gauss quadrature.  None of it shares
formulas, tables or conventions of code with composipy beyond what the properties state.
"""
import functools

import numpy as np
import scipy.linalg as sl

# ------------------------------------------------------------------ plies and laminates


def ply_Q(m):
    """Plane-stress stiffness from the compliance matrix."""
    if m['kind'] == 'iso':
        e1 = e2 = m['e']
        v, g = m['v'], m['g']
    else:
        e1, e2, v, g = m['e1'], m['e2'], m['v12'], m['g12']
    s = np.array([[1/e1, -v/e1], [-v/e1, 1/e2]])
    q = np.zeros((3, 3))
    det = s[0, 0]*s[1, 1] - s[0, 1]**2
    q[0, 0], q[1, 1], q[0, 1] = s[1, 1]/det, s[0, 0]/det, -s[0, 1]/det
    q[1, 0] = q[0, 1]
    q[2, 2] = g
    return q


def cs(deg):
    """cos and sin of an angle in degrees, exact at multiples of 90."""
    d = float(deg) % 360.
    q, r = divmod(d, 90.)
    c, s = np.cos(np.radians(r)), np.sin(np.radians(r))
    if r == 0.:
        c, s = 1., 0.
    return [(c, s), (-s, c), (-c, -s), (s, -c)][int(q) % 4]


def t_strain(deg):
    """[e1, e2, g12] = T [ex, ey, gxy] (engineering shear)."""
    c, s = cs(deg)
    return np.array([[c*c, s*s, c*s], [s*s, c*c, -c*s], [-2*c*s, 2*c*s, c*c-s*s]])


def t_stress(deg):
    """[s1, s2, t12] = T [sx, sy, txy]: inverse transpose of the strain transform."""
    return t_strain(-np.asarray(float(deg))).T


def q_bar(m, deg):
    t = t_strain(deg)
    return t.T @ ply_Q(m) @ t


def z_faces(spec):
    """Ply interfaces, from the midplane, bottom first."""
    h = [m['thickness'] for m in spec['mats']]
    return np.concatenate([[0.], np.cumsum(h)]) - np.sum(h)/2


def clt(spec):
    """A, B, D of a stacking spec {'angles': [...], 'mats': [...]} (one material per ply),
    or of a lamination-parameter spec {'lp': {...}, 'mats': [m]}."""
    if 'lp' in spec:
        return clt_lp(spec)
    a, b, d = np.zeros((3, 3)), np.zeros((3, 3)), np.zeros((3, 3))
    z = z_faces(spec)
    for k, (ang, m) in enumerate(zip(spec['angles'], spec['mats'])):
        q = q_bar(m, ang)
        h, zc = m['thickness'], (z[k]+z[k+1])/2
        a += q*h
        b += q*(h*zc)
        d += q*(h*zc**2 + h**3/12)
    return a, b, d


def stiffness_invariants(m):
    q = ply_Q(m)
    u1 = (3*q[0, 0] + 3*q[1, 1] + 2*q[0, 1] + 4*q[2, 2])/8
    u2 = (q[0, 0] - q[1, 1])/2
    u3 = (q[0, 0] + q[1, 1] - 2*q[0, 1] - 4*q[2, 2])/8
    u4 = (q[0, 0] + q[1, 1] + 6*q[0, 1] - 4*q[2, 2])/8
    u5 = (q[0, 0] + q[1, 1] - 2*q[0, 1] + 4*q[2, 2])/8
    return u1, u2, u3, u4, u5


def q_of_lp(m, xi):
    """Average of q_bar over a distribution of angles with mean cos2, sin2, cos4, sin4 = xi."""
    u1, u2, u3, u4, u5 = stiffness_invariants(m)
    x1, x2, x3, x4 = (float(x) for x in xi)
    return np.array([[u1+u2*x1+u3*x3, u4-u3*x3, u2*x2/2+u3*x4],
                     [u4-u3*x3, u1-u2*x1+u3*x3, u2*x2/2-u3*x4],
                     [u2*x2/2+u3*x4, u2*x2/2-u3*x4, u5-u3*x3]])


def clt_lp(spec):
    lp, m = spec['lp'], spec['mats'][0]
    t = float(lp['T'])
    a = q_of_lp(m, lp['xiA'])*t if lp.get('xiA') is not None else np.zeros((3, 3))
    d = q_of_lp(m, lp['xiD'])*t**3/12
    return a, np.zeros((3, 3)), d


def lamination_parameters(spec):
    """Thickness averages of cos2, sin2, cos4, sin4 (A: uniform, D: 12 z^2/T^2 weight)."""
    z = z_faces(spec)
    T = z[-1]-z[0]
    xa, xd = np.zeros(4), np.zeros(4)
    for k, ang in enumerate(spec['angles']):
        c2, s2 = cs(2*float(ang))
        c4, s4 = cs(4*float(ang))
        v = np.array([c2, s2, c4, s4])
        h = spec['mats'][k]['thickness']
        zc = (z[k]+z[k+1])/2
        xa += v*h/T
        xd += v*12*(h*zc**2+h**3/12)/T**3
    return xa, xd


def abd_scale(spec):
    """Reference magnitudes of A, B and D."""
    qmax = max(float(np.abs(ply_Q(m)).max()) for m in spec['mats'])
    T = float(spec['lp']['T']) if 'lp' in spec else float(sum(m['thickness'] for m in spec['mats']))
    return qmax*T, qmax*T**2, qmax*T**3/12


def midplane(spec, loads):
    """Strains and curvatures under [Nx Ny Nxy Mx My Mxy], solved in scaled variables."""
    a, b, d = clt(spec)
    T = float(spec['lp']['T']) if 'lp' in spec else float(sum(m['thickness'] for m in spec['mats']))
    abd = np.block([[a, b], [b, d]])
    s = np.array([1., 1., 1., T, T, T])
    x = np.linalg.solve(abd/np.outer(s, s), np.asarray(loads, float)/s)
    return x/s


def margins(spec, loads, rel=1e-8):
    """Bounds (lo, hi), one row per ply face, of the maximum-stress margins t1, c1, t2, c2, s,
    for stresses known up to `rel` of the largest."""
    e0 = midplane(spec, loads)
    z = z_faces(spec)
    emax = max(abs(e0[:3]).max(), abs(e0[3:]).max()*(z[-1]-z[0]))
    lo, hi = [], []
    for k, (t, m) in enumerate(zip(spec['angles'], spec['mats'])):
        q0 = ply_Q(m)
        noise = rel*abs(q0).max()*emax
        for j in (0, 1):
            s1, s2, t12 = q0 @ (t_strain(t) @ (e0[:3]+z[k+j]*e0[3:]))
            for demand, al in ((s1, m['t1']), (-s1, m['c1']), (s2, m['t2']), (-s2, m['c2']), (abs(t12), m['s'])):
                up, dn = demand+noise, demand-noise
                lo.append(al/up-1 if up > 0 else np.inf)
                hi.append(al/dn-1 if dn > 0 else np.inf)
    lo, hi = np.array(lo).reshape(-1, 5), np.array(hi).reshape(-1, 5)
    slack = 1e-9*(1+np.abs(np.where(np.isfinite(lo), lo, 0)))
    return lo-slack, hi+slack


# ------------------------------------------------------------------ Ritz basis
NMAX = 30


def legendre(n, x):
    c = np.zeros(n+1)
    c[n] = 1
    return np.polynomial.legendre.legval(x, c)


def _int_leg(n):
    """Integral of P_n as {degree: coefficient} (up to a constant)."""
    return {n+1: 1/(2*n+1), n-1: -1/(2*n+1)}


def shape(i, x, der=0):
    """Bardell function i (0..) or its derivative: four Hermite cubics, then the twice
    integrated Legendre polynomials, zero with zero slope at both ends."""
    x = np.asarray(x, dtype=float)
    if i < 4:
        p = np.polynomial.Polynomial(
            [[.5, -.75, 0, .25], [.125, -.125, -.125, .125], [.5, .75, 0, -.25], [-.125, -.125, .125, .125]][i])
        return p.deriv(der)(x) if der else p(x)
    n = i-2
    terms = {n: 1.0}
    for _ in range(2-der):
        new = {}
        for k, c in terms.items():
            for kk, cc in _int_leg(k).items():
                new[kk] = new.get(kk, 0.) + c*cc
        terms = new
    return sum(c*legendre(k, x) for k, c in terms.items())


@functools.lru_cache(None)
def integrals(p, q, nmax=NMAX):
    """Matrix of integrals over [-1, 1] of f_i^(p) f_k^(q)."""
    x, w = np.polynomial.legendre.leggauss(nmax+6)
    fp = np.array([shape(i, x, p) for i in range(nmax)])
    fq = np.array([shape(i, x, q) for i in range(nmax)])
    return (fp*w) @ fq.T


# ------------------------------------------------------------------ boundary conditions
EDGES = ('x0', 'xa', 'y0', 'yb')
NAMED = {'free': set(), 'pinned': {'TX', 'TY', 'TZ'}, 'simply_supported': {'TX', 'TY', 'TZ'},
         'clamped': {'TX', 'TY', 'TZ', 'RX', 'RY', 'RZ'}, 'fixed': {'TX', 'TY', 'TZ', 'RX', 'RY', 'RZ'}}


def edge_sets(constraints):
    if isinstance(constraints, str):
        return {e: NAMED[constraints.lower()] for e in EDGES}
    return {e: (NAMED[c.lower()] if isinstance(c, str) else set(c))
            for e, c in ((e, constraints[e]) for e in EDGES)}


def field_index(constraints, field, m, n):
    """Function numbers kept along x and along y for a field u, v or w."""
    s = edge_sets(constraints)
    t, r = {'u': ('TX', 'RX'), 'v': ('TY', 'RY'), 'w': ('TZ', 'RZ')}[field]

    def keep(lo, hi, size):
        gone = {0: t in s[lo], 1: r in s[lo], 2: t in s[hi], 3: r in s[hi]}
        return [i for i in range(size+4) if not gone.get(i)][:size]
    return keep('x0', 'xa', m), keep('y0', 'yb', n)


# ------------------------------------------------------------------ Ritz matrices
STRAIN_OPS = {  # field -> list of (strain component, factor, dx, dy)
    'u': [(0, 1., 1, 0), (2, 1., 0, 1)],
    'v': [(1, 1., 0, 1), (2, 1., 1, 0)],
    'w': [(3, -1., 2, 0), (4, -1., 0, 2), (5, -2., 1, 1)]}


def _op(a, b, f1, d1, f2, d2):
    (i1, j1), (i2, j2) = f1, f2
    ix = integrals(d1[0], d2[0])[np.ix_(i1, i2)]
    iy = integrals(d1[1], d2[1])[np.ix_(j1, j2)]
    return np.kron(ix, iy) * (2/a)**(d1[0]+d2[0]) * (2/b)**(d1[1]+d2[1]) * a*b/4


def ritz_block(abd, a, b, cons, m, n, f1, f2):
    """Hessian block of the strain energy; also returns the sum of absolute terms (scale)."""
    i1, i2 = field_index(cons, f1, m, n), field_index(cons, f2, m, n)
    k = 0.
    scale = 0.
    for r, c1, dx1, dy1 in STRAIN_OPS[f1]:
        for s, c2, dx2, dy2 in STRAIN_OPS[f2]:
            t = _op(a, b, i1, (dx1, dy1), i2, (dx2, dy2)) * (abd[r, s]*c1*c2)
            k = k + t
            scale = max(scale, float(np.abs(t).max()))
    return k, scale


def ritz_D(D, a, b, cons, m, n):
    abd = np.zeros((6, 6))
    abd[3:, 3:] = D
    return ritz_block(abd, a, b, cons, m, n, 'w', 'w')


def ritz_G(N, a, b, cons, m, n):
    nx, ny, nxy = N
    i = field_index(cons, 'w', m, n)
    k, scale = 0., 0.
    for c, d1, d2 in ((nx, (1, 0), (1, 0)), (ny, (0, 1), (0, 1)), (nxy, (1, 0), (0, 1)), (nxy, (0, 1), (1, 0))):
        t = _op(a, b, i, d1, i, d2)*c
        k = k+t
        scale = max(scale, float(np.abs(t).max()))
    return k, scale


def ritz_ABD(abd, a, b, cons, m, n):
    rows = []
    scales = {}
    for f1 in 'uvw':
        row = []
        for f2 in 'uvw':
            k, s = ritz_block(abd, a, b, cons, m, n, f1, f2)
            row.append(k)
            scales[f1+f2] = s
        rows.append(row)
    return np.block(rows), scales


def pencil(K, KG):
    """Eigenvalues of KG x = l K x, most negative first, and vectors; None if K is not safely
    positive definite."""
    K = (K+K.T)/2
    KG = (KG+KG.T)/2
    d = np.sqrt(np.clip(np.diag(K), 1e-300, None))
    ks, gs = K/np.outer(d, d), KG/np.outer(d, d)
    w = np.linalg.eigvalsh(ks)
    if w[0] < 1e-9*w[-1]:
        return None
    lam, vec = sl.eigh(gs, ks)
    return lam, vec/d[:, None]


def critical(D, N, a, b, cons, m, n):
    """Lowest positive buckling factor (None: K singular; inf: no positive one)."""
    K, _ = ritz_D(D, a, b, cons, m, n)
    G, _ = ritz_G(N, a, b, cons, m, n)
    r = pencil(K, G)
    if r is None:
        return None
    lam = r[0]
    return -1/lam[0] if lam[0] < -1e-12*np.abs(lam).max() else np.inf


def mode_shape(cons, m, n, coef, x, y):
    """w at points xi, eta in [-1, 1]; x, y broadcastable arrays."""
    wm, wn = field_index(cons, 'w', m, n)
    c = np.asarray(coef, float).reshape(len(wm), len(wn))
    fx = np.array([shape(i, x) for i in wm])
    fy = np.array([shape(j, y) for j in wn])
    return np.einsum('ij,i...,j...->...', c, fx, fy)
