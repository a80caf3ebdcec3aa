"""C19: the shape functions and their pre-integrated products, entry by entry."""
from fractions import Fraction

import numpy as np

from .. import gen, oracle
from .base import Check

FUNCS = [('ii_ff', 0, 0), ('ii_fxi_f', 1, 0), ('ii_f_fxi', 0, 1), ('ii_fxi_fxi', 1, 1), ('ii_fxixi_f', 2, 0), ('ii_f_fxixi', 0, 2),
         ('ii_fxixi_fxi', 2, 1), ('ii_fxi_fxixi', 1, 2), ('ii_fxixi_fxixi', 2, 2)]
NF = 50


def coefficients(i):
    """Exact coefficients (ascending) of Bardell function i, from Legendre polynomials."""
    if i < 4:
        h = [[4, -6, 0, 2], [1, -1, -1, 1], [4, 6, 0, -2], [-1, -1, 1, 1]][i]
        return [Fraction(c, 8) for c in h]
    leg = [[Fraction(1)], [Fraction(0), Fraction(1)]]
    for n in range(1, i+2):
        a = [Fraction(0)]+[Fraction(2*n+1, n+1)*c for c in leg[n]]
        for k, c in enumerate(leg[n-1]):
            a[k] -= Fraction(n, n+1)*c
        leg.append(a)
    n = i-2
    out = [Fraction(0)]*(i+1)
    for k, c in ((n+2, Fraction(1, (2*n+1)*(2*n+3))), (n, -Fraction(1, 2*n+1)*(Fraction(1, 2*n+3)+Fraction(1, 2*n-1))),
                 (n-2, Fraction(1, (2*n+1)*(2*n-1)))):
        for j, x in enumerate(leg[k]):
            out[j] += c*x
    return out


def value(c, x):
    """Exact value at the double x, and the rounding scale of a floating-point evaluation."""
    f = Fraction(x)
    v, s, p = Fraction(0), Fraction(0), Fraction(1)
    for k in c:
        v += k*p
        s += abs(k*p)
        p *= f
    return float(v), float(s)


class C19(Check):
    def subscribe(self, taps):
        import composipy.pre_integrated_component.functions as f
        self.f = f
        self.coef = {}

    def c(self, i):
        if i not in self.coef:
            self.coef[i] = coefficients(i)
        return self.coef[i]

    def integral_row(self, name, p, q, i):
        want = oracle.integrals(p, q)
        dp, dq = np.sqrt(np.diag(oracle.integrals(p, p))), np.sqrt(np.diag(oracle.integrals(q, q)))
        fn = getattr(self.f, name)
        for k in range(oracle.NMAX):
            got = float(self.ctx.sut(fn, (i, k)))
            # entries with one of the four end functions are decimal fractions, noisy at high order
            exact = min(i, k) >= 4
            tol = (1e-12 if exact else 2e-13*10**(.33*max(0, max(i, k)-8)))*dp[i]*dq[k]
            self.ctx.close(got, want[i, k], tol, name, f'{name}({i}, {k})')
            self.ctx.seen('integral', (name, i, k), {'table': name, 'entry': [i, k], 'value': got})

    def functions(self, rng, i):
        pts = [-1., 1., 0., .5, -.5, .25, float(rng.uniform(-1, 1)), float(rng.uniform(-.3, .3)), float(rng.uniform(-.05, .05)), 2., -3., .9,
               *(float(e+d*10**rng.uniform(lo, -1)) for e, d, lo in ((-1., 1, -13), (1., -1, -13), (-1., -1, -8), (1., 1, -8), (0., gen.choice(rng, [-1, 1]), -15), (.5, gen.choice(rng, [-1, 1]), -10)))]
        vals = {}
        for x in pts:
            want, scale = value(self.c(i), x)
            got = float(self.ctx.sut(self.f.fxi, i, x))
            self.ctx.close(got, want, 4e-15*(i+4)*scale, 'fxi', f'shape function {i} at {x}')
            vals[x] = (want, scale)
            self.ctx.seen('shape function', (i, x), {'function': i, 'at': x, 'value': got})
        idx = [(i, j) for j in range(NF)]
        for x in pts:
            y = gen.choice(rng, [gen.choice(rng, pts), x, -x], [.5, .25, .25])
            got = np.asarray(self.ctx.sut(self.f.sxieta, idx, x, y), dtype=float)
            self.ctx.check(got.shape == (NF,), 'shape', f'sxieta gives {got.shape}')
            for j in range(NF):
                v, s = value(self.c(j), y) if (j, y) not in self.memo else self.memo[j, y]
                self.memo[j, y] = (v, s)
                u, r = vals[x]
                tol = 4e-15*(i+j+8)*(abs(u)*s+r*abs(v)+4e-15*r*s*(i+j))
                self.ctx.close(got[j], u*v, tol+1e-300, 'sxieta', f'product ({i}, {j}) at ({x}, {y})')
                self.ctx.seen('product', (i, j, x, y))
        some = [(int(rng.integers(NF)), int(rng.integers(NF))) for _ in range(7)]
        x, y = gen.choice(rng, [(pts[6], pts[7]), (pts[6], pts[6]), (pts[7], -pts[7])])
        got = self.ctx.sut(self.f.sxieta, some, x, y)
        for (p, q), g in zip(some, got):
            u, r = value(self.c(p), x)
            v, s = value(self.c(q), y)
            self.ctx.close(g, u*v, 4e-15*(p+q+8)*(abs(u)*s+r*abs(v)+1e-13*r*s), 'sxieta', f'product ({p}, {q}) in a mixed list')

    def drive(self, rng, i):
        self.memo = {}
        i %= 320
        if i < 270:
            name, p, q = FUNCS[i//30]
            self.integral_row(name, p, q, i % 30)
        else:
            self.functions(rng, i-270)
