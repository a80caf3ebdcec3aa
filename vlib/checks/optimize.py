"""C21-C24: lamination-parameter optimisation."""
import contextlib
import io
import warnings

import numpy as np
import scipy.linalg as sl

from .. import gen, oracle
from ..core import rnd
from .base import Check


class Panel:
    """Reference model of one optimisation problem (no composipy code)."""

    def __init__(self, q):
        self.q = q
        m = dict(kind='ortho', e1=q['E1'], e2=q['E2'], v12=q['v12'], g12=q['G12'], thickness=.1)
        mx = max(map(abs, q['N']))
        self.unit = [x/mx for x in q['N']]
        self.load = mx
        k = lambda xi: oracle.ritz_D(oracle.q_of_lp(m, [xi[0], 0, xi[1], 0])/12, q['a'], q['b'], q['cons'], q['m'], q['n'])[0]
        self.K0 = k((0, 0))
        self.K1 = k((1, 0))-self.K0
        self.K3 = k((0, 1))-self.K0
        self.G = oracle.ritz_G(self.unit, q['a'], q['b'], q['cons'], q['m'], q['n'])[0]
        self.d = np.sqrt(np.diag(self.K0))

    def crit(self, xi, T=1.):
        """Lowest positive factor of the unit loads; None where K is not positive definite."""
        K = (self.K0+xi[0]*self.K1+xi[1]*self.K3)/np.outer(self.d, self.d)
        w = np.linalg.eigvalsh(K)
        if w[0] < 1e-7*w[-1]:
            return None
        lam = sl.eigvalsh(self.G/np.outer(self.d, self.d), K)
        if lam[0] > -1e-9*abs(lam).max():
            return np.inf
        return -T**3/lam[0]

    def feasible(self, xi, penalty):
        if penalty:
            return min(xi[1]+2*xi[0]+1, xi[1]-2*xi[0]+1)
        return xi[1]-2*xi[0]**2+1

    def best(self, penalty):
        """Largest critical factor over the feasible region (T = 1): grid, then refinement.
        The critical factor is concave in (xi1, xi3), so the refined value is global."""
        pts = [(x, y) for x in np.linspace(-1, 1, 17) for y in np.linspace(-1, 1, 17)]
        best, at = -1, None
        step = 2/16
        for _ in range(6):
            for p in pts:
                if abs(p[0]) <= 1 and abs(p[1]) <= 1 and self.feasible(p, penalty) >= -1e-12:
                    v = self.crit(p)
                    if v is not None and v > best:
                        best, at = v, p
            if at is None:
                return None, None
            step /= 2
            pts = [(at[0]+i*step, at[1]+j*step) for i in (-2, -1, 0, 1, 2) for j in (-2, -1, 0, 1, 2)]
            # points on the border too
            for i in (-2, -1, 0, 1, 2):
                x = at[0]+i*step
                pts.append((x, 2*abs(x)-1 if penalty else 2*x*x-1))
        return best, at


# stress and length, in terms of MPa and mm
UNITS = {'MPa-mm': (1., 1.), 'Pa-m': (1e6, 1e-3), 'GPa-mm': (1e-3, 1.), 'psi-in': (145., .04), 'kPa-cm': (1e3, .1), 'other': (1e-5, 20.)}


def problem(rng, lo=3, hi=5):
    """A panel of realistic proportions, loads of about one, length unit q['L']."""
    unit = gen.choice(rng, ['MPa-mm', 'MPa-mm', *UNITS])
    es, L = UNITS[unit]
    E1 = float(rng.uniform(40e3, 250e3))*es
    q = dict(E1=E1, E2=E1*float(rng.uniform(.05, .6)), v12=float(rng.uniform(.1, .38)), G12=E1*float(rng.uniform(.02, .2)))
    q['a'] = float(rng.uniform(200, 900))*L
    q['unit'], q['L'], q['es'] = unit, L, es
    q['b'] = q['a']*float(gen.choice(rng, [1., .5, rng.uniform(.4, 2.)]))
    q['m'], q['n'] = int(rng.integers(lo, hi)), int(rng.integers(lo, hi))
    kind = gen.choice(rng, ['x', 'y', 'xy', 'yx', 's', 'xs', 'sx', 'ys', 'all', 'alls', 'xt', 'yt', 'tx', 'st'])
    u = float(rng.uniform(.1, 1))
    v = float(rng.uniform(-1, 1))
    N = {'x': [-1, 0, 0], 'y': [0, -1, 0], 'xy': [-1, -u, 0], 'yx': [-u, -1, 0], 's': [0, 0, gen.choice(rng, [1, -1])], 'xs': [-1, 0, v],
         'sx': [-u, 0, gen.choice(rng, [1, -1])], 'ys': [0, -1, v], 'all': [-1, -u, v], 'alls': [-u, -.5*u, gen.choice(rng, [1, -1])],
         'xt': [-1, .3*u, 0], 'yt': [.3*u, -1, 0], 'tx': [-.8, 1, 0], 'st': [.3*u, .2*u, gen.choice(rng, [1, -1])]}[kind]
    q['N'] = [float(x) for x in N]
    q['cons'] = gen.choice(rng, ['PINNED', 'PINNED', 'CLAMPED', {'x0': 'clamped', 'xa': 'clamped', 'y0': 'pinned', 'yb': 'pinned'},
                                 {'x0': 'pinned', 'xa': 'pinned', 'y0': 'pinned', 'yb': 'free'},
                                 {'x0': ['TZ'], 'xa': ['TZ', 'RZ'], 'y0': ['TZ'], 'yb': ['TZ']}])
    if rng.random() < .25:
        q['cons'] = gen.choice(rng, STRIPS) if rng.random() < .5 else gen.constraints(rng)
    return q


STRIPS = [{'x0': x, 'xa': x, 'y0': y, 'yb': y} for x, y in (('free', 'clamped'), ('pinned', 'free'), ('free', 'pinned'), ('clamped', 'free'))]


def relative(rng, q, lo=3, hi=5):
    """The same problem with one thing changed."""
    p = dict(q, N=list(q['N']))
    k = gen.choice(rng, ['cons', 'cons', 'size', 'series', 'material', 'loads', 'nothing'])
    if k == 'cons':
        p['cons'] = gen.choice(rng, [c for c in ('PINNED', 'CLAMPED', {'x0': 'clamped', 'xa': 'clamped', 'y0': 'pinned', 'yb': 'pinned'}) if c != q['cons']])
    elif k == 'size':
        e = gen.choice(rng, ['a', 'b'])
        p[e] = q[e]*float(rng.uniform(.7, 1.4))
    elif k == 'series':
        p['m'], p['n'] = (q['n'], q['m']) if q['m'] != q['n'] else (q['m'], q['n']+1 if q['n'] < hi else q['n']-1)
    elif k == 'material':
        e = gen.choice(rng, ['E2', 'G12', 'v12'])
        p[e] = q[e]*float(rng.uniform(.6, .9))
    elif k == 'loads':
        p['N'] = [-1.*max(map(abs, q['N'])), p['N'][1]*.5, p['N'][2]] if rng.random() < .5 else [x*2. for x in q['N']]
    return p, k


def neighbours(q):
    """Six problems next to q."""
    return [dict(q, a=q['a']*u, b=q['b']*v, E2=q['E2']*w) for u, v, w in
            [(1.02, 1, 1), (.98, 1, 1), (1, 1.02, 1.03), (1, .98, 1), (1.03, 1, .96), (.99, 1.03, .98)]]


class Optimise(Check):
    def args(self, q):
        kw = {k: q[k] for k in ('a', 'b', 'E1', 'E2', 'v12', 'G12', 'm', 'n')}
        kw.update(zip(('Nxx', 'Nyy', 'Nxy'), q['N']))
        kw['panel_constraint'] = q['cons']
        return kw

    def quiet(self, f, **kw):
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            return self.ctx.sut(f, **kw)

    def sig(self, q):
        return (rnd([q[k] for k in ('a', 'b', 'E1', 'E2', 'v12', 'G12')]), rnd(q['N']), str(q['cons']), q['m'], q['n'])


class C21(Optimise):
    """maximize_buckling_load.

    The objective has kinks where two modes change order, and the solver stalls on one now and then
    (4500 runs: 31 more than half a per cent below the optimum, three of them 3 to 4 %).
    So one run is judged with LIMIT; below USUAL, six problems next to it are run, and four have to
    miss BAD, or five USUAL (three at most did)."""
    LIMIT, USUAL, BAD = .9, .992, .985

    def subscribe(self, taps):
        taps.on('maximize_buckling_load', self.on_max)

    def on_max(self, ev):
        q, penalty, T = self.now
        r = ev.result
        self.ctx.seen('run', self.sig(q)+(penalty,))
        x = np.asarray(r['x'], dtype=float)
        self.ctx.check(x.shape == (2,), 'shape', f'optimum has shape {x.shape}')
        if not r['success']:
            self.ctx.seen('not converged, not judged')
            return
        model = Panel(q)
        g = model.feasible(x, penalty)
        self.ctx.check(g >= -1.2e-4 and (abs(x) <= 1+1e-9).all(), 'infeasible', f'optimum {x} is outside the region: {g}', problem=q, penalty=penalty)
        v = model.crit(x, T)
        if v is None or not np.isfinite(v):
            self.ctx.seen('singular optimum, not judged')
            return
        self.ctx.close(-float(r['fun']), v, 1e-5*v, 'value', f'reported optimum value is not the critical load at {x}', problem=q, penalty=penalty)
        best, at = model.best(penalty)
        best *= T**3
        start = model.crit((0., 0.), T)
        self.ctx.check(v >= start*(1-1e-6), 'worse-than-start', f'critical load {v} below the quasi-isotropic start {start}', problem=q, penalty=penalty)
        self.ctx.check(v >= self.LIMIT*best, 'not-optimal', f'critical load {v} at {x}; {best} at {at}', problem=q, penalty=penalty)
        if v < self.USUAL*best:
            low = [r for r in (self.ratio(p, penalty, T) for p in neighbours(q)) if r is not None and r < self.USUAL]
            self.ctx.check(len(low) < 5 and sum(r < self.BAD for r in low) < 4, 'not-optimal-nearby', f'critical load {v} at {x}; {best} at {at}; and nearby {low}', problem=q, penalty=penalty)
            self.ctx.seen('stalled')
        self.ctx.seen('optimum', self.sig(q)+(penalty,), dict(problem=q, penalty=penalty, x=x, value=v, best=best))
        self.ctx.seen('optimum, triangle' if penalty else 'optimum, parabola')
        if abs(g) < 1e-3:
            self.ctx.seen('optimum on the border')
        self.worst = min(getattr(self, 'worst', 1.), v/best)

    def ratio(self, q, penalty, T):
        import composipy.optimize as opt
        r = self.quiet(opt.maximize_buckling_load, T=T, penalty=penalty, **self.args(q))
        if not r['success']:
            return None
        model = Panel(q)
        v = model.crit(np.asarray(r['x'], dtype=float))
        return None if v is None else v/model.best(penalty)[0]

    def drive(self, rng, i):
        import composipy.optimize as opt
        q = problem(rng)
        penalty = bool(rng.random() < .55)
        T = float(gen.choice(rng, [1., rng.uniform(.5, 6)*q['L'], 10**rng.uniform(-2, 2)*q['L']]))
        if rng.random() < .4:
            s = float(10**rng.uniform(-2, 4))
            q['N'] = [x*s for x in q['N']]
        self.one(rng, opt, q, penalty, T)
        while rng.random() < .3:        # and one that has much in common with it
            if rng.random() < .3:
                T, k = float(T*rng.uniform(.5, 2)), 'T'
            elif rng.random() < .2:
                penalty, k = not penalty, 'region'
            else:
                q, k = relative(rng, q)
            self.ctx.seen('again with another '+k)
            self.one(rng, opt, q, penalty, T)

    def one(self, rng, opt, q, penalty, T):
        q = dict(q)
        self.now = (q, penalty, T)
        kw = self.args(q)
        if rng.random() < .2:
            kw['tol'] = 1e-8
        if rng.random() < .03:      # the default size
            q['m'] = q['n'] = 7
            del kw['m'], kw['n']
        if penalty and rng.random() < .3:
            self.quiet(opt.maximize_buckling_load, T=T, **kw)
            return
        self.quiet(opt.maximize_buckling_load, T=T, penalty=penalty, **kw)


class C22(Optimise):
    """minimize_panel_weight.  LIMIT, USUAL and BAD as in C21, in terms of the thickness (3500 runs: 5
    more than 0.3 % too thick, the worst 1.4 %, none of them with another among the six next to it)."""
    LIMIT, USUAL, BAD = .04, .003, .005

    def subscribe(self, taps):
        taps.on('minimize_panel_weight', self.on_min)

    def on_min(self, ev):
        q = self.now
        r = ev.result
        self.ctx.seen('run', self.sig(q))
        x = np.asarray(r['x'], dtype=float)
        self.ctx.check(x.shape == (3,), 'shape', f'optimum has shape {x.shape}')
        if not r['success']:
            self.ctx.seen('not converged, not judged')
            return
        model = Panel(q)
        T = float(x[0])
        g = model.feasible(x[1:], True)
        self.ctx.check(g >= -1.2e-4 and (abs(x[1:]) <= 1+1e-9).all() and T > 0, 'infeasible', f'optimum {x} outside the region: {g}', problem=q)
        v = model.crit(x[1:], T)
        if v is None or not np.isfinite(v):
            self.ctx.seen('singular optimum, not judged')
            return
        self.ctx.check(v >= model.load*(1-1e-3), 'buckles', f'the panel buckles at {v/model.load} of the load', problem=q, x=x)
        self.ctx.close(float(r['fun']), T**3, 1e-9*T**3, 'value', 'reported objective is not the cube of the thickness', problem=q)
        best, at = model.best(True)
        need = (model.load/best)**(1/3)
        self.ctx.check(T <= need*(1+self.LIMIT), 'too-thick', f'T = {T}, {need} is enough at {at}', problem=q, x=x)
        self.ctx.check(T >= need*(1-2e-3), 'too-thin', f'T = {T}, at least {need} needed', problem=q, x=x)
        if T > need*(1+self.USUAL):
            high = [r for r in map(self.ratio, neighbours(q)) if r is not None and r > 1+self.USUAL]
            self.ctx.check(len(high) < 5 and sum(r > 1+self.BAD for r in high) < 4, 'too-thick-nearby', f'T = {T}, {need} is enough at {at}; and nearby {high}', problem=q, x=x)
            self.ctx.seen('stalled')
        self.ctx.seen('optimum', self.sig(q), dict(problem=q, x=x, needed=need))
        self.worst = max(getattr(self, 'worst', 0.), T/need)

    def ratio(self, q):
        import composipy.optimize as opt
        r = self.quiet(opt.minimize_panel_weight, **self.args(q))
        if not r['success']:
            return None
        model = Panel(q)
        return float(r['x'][0])/(model.load/model.best(True)[0])**(1/3)

    def drive(self, rng, i):
        import composipy.optimize as opt
        q = problem(rng, 3, 4)
        s = float(10**rng.uniform(0, 3.5)) if rng.random() < .6 else float(10**rng.uniform(-4, 5))
        q['N'] = [x*s*q['es']*q['L'] for x in q['N']]
        self.one(rng, opt, q)
        while rng.random() < .3:        # and one that has much in common with it
            q, k = relative(rng, q, 3, 4)
            self.ctx.seen('again with another '+k)
            self.one(rng, opt, q)

    def one(self, rng, opt, q):
        self.now = q
        kw = self.args(q)
        if rng.random() < .3:
            kw['x0'] = [float(rng.uniform(.5, 10))*q['L'], float(rng.uniform(-.2, .2)), float(rng.uniform(-.2, .2))]
        self.quiet(opt.minimize_panel_weight, **kw)


class C23(Optimise):
    """Load normalisation and warnings."""

    def count(self, f, **kw):
        with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('always')
            r = self.ctx.sut(f, **kw)
        mine = [str(x.message) for x in w if issubclass(x.category, UserWarning)]
        return r, [m for m in mine if 'negative' in m], [m for m in mine if 'ormalized' in m]

    def warn(self, rng):
        import composipy.optimize as opt
        q = problem(rng)
        q['m'] = q['n'] = 2
        v = lambda: float(gen.choice(rng, [0., 0., -.5, .5, 1., -1., 1.0000001, -1.0000001, 2., -3., 250., -1e-9, 1e-9, float(np.nextafter(1, 2)), -.999]))
        while True:
            q['N'] = [v(), v(), v()]
            if rng.random() < .4:
                # one load alone, or a load and its limit of sign
                for k in rng.permutation(3)[:int(rng.integers(1, 3))]:
                    q['N'][k] = 0.
            if rng.random() < .2:
                q['N'] = [abs(x) for x in q['N'][:2]]+[q['N'][2]]
            if any(q['N']):
                break
        f = gen.choice(rng, [opt.maximize_buckling_load, opt.minimize_panel_weight])
        kw = self.args(q)
        if f is opt.maximize_buckling_load:
            kw['T'] = 1.
        kw['options'] = {'maxiter': 1}
        r, tension, big = self.count(f, **kw)
        x, y, s = q['N']
        self.ctx.check(bool(tension) == (x >= 0 and y >= 0 and s == 0), 'warn-tension', f'loads {q["N"]}: compression warning {bool(tension)}')
        self.ctx.check(bool(big) == (max(map(abs, q['N'])) > 1), 'warn-magnitude', f'loads {q["N"]}: normalisation warning {bool(big)}')
        self.ctx.seen('warnings', (f.__name__, tuple(q['N'])), {'loads': q['N'], 'compression': bool(tension), 'magnitude': bool(big)})
        self.ctx.seen('warned' if tension or big else 'silent')

    def scale(self, rng):
        import composipy.optimize as opt
        q = problem(rng, 3, 4)
        s = float(gen.choice(rng, [2., .25, 1e3, 1e-3, 7.3, 37.]))
        if rng.random() < .6:
            kw = self.args(q)
            pen = bool(rng.random() < .5)
            T = float(rng.uniform(.5, 5))*q['L']
            r1 = self.quiet(opt.maximize_buckling_load, T=T, penalty=pen, **kw)
            k2 = self.args(dict(q, N=[x*s for x in q['N']]))
            r2 = self.quiet(opt.maximize_buckling_load, T=T, penalty=pen, **k2)
            if r1['success'] and r2['success']:
                def off(p):
                    u, v = (self.quiet(opt.maximize_buckling_load, T=T, penalty=pen, **self.args(dict(p, N=[x*t for x in p['N']]))) for t in (1., s))
                    return u['success'] and v['success'] and abs(u['fun']-v['fun']) > .02*abs(u['fun'])
                if abs(r1['fun']-r2['fun']) > .02*abs(r1['fun']):
                    # by chance only where the solver stalls in one of the two
                    self.ctx.check(sum(map(off, neighbours(q))) < 4, 'scale-max', f'optimum {r1["fun"]} and {r2["fun"]} with loads times {s}', problem=q)
                self.ctx.seen('scaled loads', self.sig(q)+(s,), dict(problem=q, factor=s))
        else:
            t = float(10**rng.uniform(.5, 3))*q['es']*q['L']
            q['N'] = [x*t for x in q['N']]
            s = float(gen.choice(rng, [8., 27., 2., 100.]))
            r1 = self.quiet(opt.minimize_panel_weight, **self.args(q))
            r2 = self.quiet(opt.minimize_panel_weight, **self.args(dict(q, N=[x*s for x in q['N']])))
            if r1['success'] and r2['success']:
                def off(p):
                    u, v = (self.quiet(opt.minimize_panel_weight, **self.args(dict(p, N=[x*t for x in p['N']]))) for t in (1., s))
                    return u['success'] and v['success'] and abs(v['x'][0]/u['x'][0]-s**(1/3)) > .02*s**(1/3)
                if abs(r2['x'][0]/r1['x'][0]-s**(1/3)) > .02*s**(1/3):
                    self.ctx.check(sum(map(off, neighbours(q))) < 4, 'scale-weight', f'T {r1["x"][0]} and {r2["x"][0]} with loads times {s}', problem=q)
                self.ctx.seen('scaled loads, weight', self.sig(q)+(s,))

    def drive(self, rng, i):
        if i % 4 == 0:
            self.scale(rng)
        else:
            for _ in range(3):
                self.warn(rng)


class C24(Optimise):
    """The plot of the design space."""

    def subscribe(self, taps):
        import matplotlib.pyplot as plt
        from matplotlib.axes import Axes
        self.plt = plt
        self.drawn = []
        for name in ('contour', 'plot', 'contourf'):
            self.patch(Axes, name)

    def patch(self, Axes, name):
        orig = getattr(Axes, name)

        def rec(ax, *a, **k):
            self.drawn.append((name, a, k))
            return orig(ax, *a, **k)
        setattr(Axes, name, rec)

    def drive(self, rng, i):
        import composipy.optimize as opt
        q = problem(rng, 2, 4)
        q['m'] = max(q['m'], 3) if q['n'] < 3 else q['m']
        pen = bool(rng.random() < .5)
        pts = int(gen.choice(rng, [5, 5, 6, 7, 8, 9])) if rng.random() < .97 else int(rng.integers(9, 31))
        if rng.random() < .5:
            s = float(10**rng.uniform(-1, 3))
            q['N'] = [x*s for x in q['N']]
        T = float(rng.uniform(.5, 5))*q['L']
        self.picture(rng, opt, q, pen, T, pts)
        while rng.random() < .3:
            q, k = relative(rng, q, 3, 4)
            self.ctx.seen('again with another '+k)
            self.picture(rng, opt, q, pen, T, pts)

    def picture(self, rng, opt, q, pen, T, pts):
        kw = self.args(q)
        del self.drawn[:]
        try:
            r = self.quiet(opt.maximize_buckling_load, T=T, penalty=pen, plot=True, points_to_plot=pts, options={'maxiter': 5}, **kw)
        finally:
            self.plt.close('all')
        con = [d for d in self.drawn if d[0].startswith('contour')]
        self.ctx.check(len(con) == 1, 'contour', f'{len(con)} contour plots')
        X, Y, Z = (np.ma.filled(np.ma.asarray(v, dtype=float), np.nan) for v in con[0][1][:3])
        self.ctx.check(X.shape == Y.shape == Z.shape and X.size == pts*pts, 'grid', f'grid {X.shape} for {pts} points')
        ax = np.linspace(-1, 1, pts)
        self.ctx.check(np.allclose(np.sort(np.unique(np.round(X, 9))), ax) and np.allclose(np.sort(np.unique(np.round(Y, 9))), ax), 'grid', 'grid points')
        self.ctx.check(len({(round(x, 6), round(y, 6)) for x, y in zip(X.ravel(), Y.ravel())}) == pts*pts, 'grid', 'grid points repeat')
        model = Panel(q)
        n = 0
        for x, y, z in zip(X.ravel(), Y.ravel(), Z.ravel()):
            g = model.feasible((x, y), pen)
            edge = abs(g) < 1e-9
            if edge and (4*x != int(4*x) or 4*y != int(4*y)):
                continue        # on the border but for rounding
            if g < 0 and not edge:
                self.ctx.check(np.isnan(z), 'infeasible-drawn', f'value {z} at the infeasible point {x, y}', problem=q, penalty=pen)
                self.ctx.seen('infeasible point')
                continue
            v = model.crit((x, y), T)
            if v is None or not np.isfinite(v):
                continue
            v /= model.load
            self.ctx.close(z, v, 1e-5*v, 'contour-value', f'value drawn at {x, y} is not the critical load factor', problem=q, penalty=pen)
            self.ctx.seen('contour value', self.sig(q)+(x, y))
            n += 1
            if edge:
                self.ctx.seen('border point')
        lines = [d for d in self.drawn if d[0] == 'plot']
        opt_seen = False
        spans = []
        for _, a, k in lines:
            if len(a) < 2:
                continue
            x, y = np.atleast_1d(np.asarray(a[0], float)), np.atleast_1d(np.asarray(a[1], float))
            if x.size == 1:
                self.ctx.close([x[0], y[0]], np.asarray(r['x'], float), 1e-9, 'marker', 'the marker is not at the optimum')
                opt_seen = True
            else:
                want = 2*np.abs(x)-1 if pen else 2*x*x-1
                self.ctx.close(y, want, 1e-9, 'border', 'the border drawn is not the border of the region', penalty=pen)
                spans.append((x.min(), x.max()))
                self.ctx.seen('border line', (pen, pts))
        reach = -1.
        for lo, hi in sorted(spans):
            reach = max(reach, hi) if lo <= reach+1e-9 else reach
        self.ctx.check(reach >= 1-1e-9, 'border', f'the border drawn ends at {reach}', spans=spans)
        self.ctx.check(opt_seen, 'marker', 'no optimum marker')
        self.ctx.seen('plot', self.sig(q)+(pen, pts), dict(problem=q, penalty=pen, points=pts, judged=n))
