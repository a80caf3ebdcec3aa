"""C13-C18, C20, C27: plates."""
import contextlib
import copy
import io

import numpy as np

from .. import gen, oracle
from ..core import rnd
from .base import Check, arr, perm

ALLDOF = ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ']


def abd_of(lam):
    a, b, d = oracle.clt(lam)
    return np.block([[a, b], [b, d]])


def ktol(m, n):
    """Relative noise allowed in integrals of the basis: the high-order tables are decimal, and their
    sums cancel.  Worst seen for 14, 18, 22 and 26 functions: 2e-12, 5e-11, 1e-9, 7e-8."""
    k = max(m, n)
    return 1e-10 if k <= 14 else 2e-9 if k <= 18 else 3e-8 if k <= 22 else 1e-6


class Plate(Check):
    def spec(self, ev):
        return self.b.spec_of(ev.obj)

    def psig(self, p):
        return (round(p['a'], 9), round(p['b'], 9), rnd(p['N'], 8), p['m'], p['n'], str(p['cons']), str(p['lam'].get('angles', p['lam'].get('lp'))))

    def show(self, p):
        return {'a': p['a'], 'b': p['b'], 'N': p['N'], 'm': p['m'], 'n': p['n'], 'constraints': p['cons'], 'stacking': p['lam'].get('angles', p['lam'].get('lp'))}

    # -- oracles ------------------------------------------------------------------------
    def ref_D(self, p):
        d = oracle.clt(p['lam'])[2]
        return oracle.ritz_D(d, p['a'], p['b'], p['cons'], p['m'], p['n'])[0]

    def ref_G(self, p):
        return oracle.ritz_G(p['N'], p['a'], p['b'], p['cons'], p['m'], p['n'])[0]

    def g_scale(self, p):
        nx, ny, nxy = map(abs, p['N'])
        g = oracle.ritz_G([nx+nxy, ny+nxy, 0], p['a'], p['b'], p['cons'], p['m'], p['n'])[0]
        d = np.sqrt(np.abs(np.diag(g)))
        return np.outer(d, d)+1e-12*abs(g).max()

    def pair(self, ev, size):
        r = ev.result
        self.ctx.check(isinstance(r, (tuple, list)) and len(r) == 2, 'shape', 'the result is not a pair (K, KG)')
        return arr(self.ctx, r[0], (size, size), 'K'), arr(self.ctx, r[1], (size, size), 'KG')

    def judge_D(self, ev, what='bending stiffness'):
        p = self.spec(ev)
        if p is None:
            return
        K, KG = self.pair(ev, p['m']*p['n'])
        Ko, Go = self.ref_D(p), self.ref_G(p)
        d = np.sqrt(np.diag(Ko))
        t = ktol(p['m'], p['n'])
        self.ctx.close(K, Ko, t*np.outer(d, d), 'K', 'K is not the Hessian of the bending energy', plate=self.show(p))
        self.ctx.close(KG, Go, t*self.g_scale(p), 'KG', 'KG is not the Hessian of the load potential', plate=self.show(p))
        self.ctx.seen('K and KG', self.psig(p), self.show(p))
        if p['m'] != p['n']:
            self.ctx.seen('m != n')
        if max(p['m'], p['n']) > 10:
            self.ctx.seen('high order')

    def judge_ABD(self, ev):
        p = self.spec(ev)
        if p is None:
            return
        mn = p['m']*p['n']
        K, KG = self.pair(ev, 3*mn)
        abd = abd_of(p['lam'])
        Ko, _ = oracle.ritz_ABD(abd, p['a'], p['b'], p['cons'], p['m'], p['n'])
        d = np.sqrt(np.abs(np.diag(Ko)))
        t = ktol(p['m'], p['n'])
        # rows without stiffness of their own (A = 0) are judged against the largest of their block
        for k in range(3):
            s = slice(k*mn, (k+1)*mn)
            d[s] = np.maximum(d[s], 1e-6*max(d[s].max(), 1e-150))
        names = 'uvw'
        for r in range(3):
            for c in range(3):
                sl = np.s_[r*mn:(r+1)*mn, c*mn:(c+1)*mn]
                self.ctx.close(K[sl], Ko[sl], t*np.outer(d, d)[sl], f'K-{names[r]}{names[c]}',
                               f'block {names[r]}{names[c]} of K is not the Hessian of the laminate energy', plate=self.show(p))
        Go = np.zeros((3*mn, 3*mn))
        Go[2*mn:, 2*mn:] = self.ref_G(p)
        gs = np.zeros((3*mn, 3*mn))
        gs[2*mn:, 2*mn:] = self.g_scale(p)
        self.ctx.close(KG, Go, t*gs, 'KG', 'KG is not the Hessian of the load potential', plate=self.show(p))
        sc = np.outer(d, d)
        self.ctx.check((abs(K-K.T) <= t*sc).all(), 'symmetric', 'K is not symmetric', plate=self.show(p))
        w = np.linalg.eigvalsh((K+K.T)/2/sc)
        self.ctx.check(w[0] > -10*t*max(w[-1], 1), 'psd', 'K has a negative eigenvalue', w=w[:3], plate=self.show(p))
        self.ctx.seen('coupled K and KG', self.psig(p), self.show(p))
        if np.abs(abd[:3, 3:]).max() > 1e-9*np.sqrt(abs(abd[0, 0]*abd[3, 3])):
            self.ctx.seen('with B')
        return K, KG

    def judge_eig(self, ev, ref=True):
        """Eigenpairs and selection, against K and KG of the oracle."""
        p = self.spec(ev)
        if p is None:
            return
        num = ev.kwargs.get('num_eigvalues', ev.args[1] if len(ev.args) > 1 else 5)
        mn = p['m']*p['n']
        k = min(num, mn-2)
        vals = arr(self.ctx, ev.result[0], (k,), 'eigenvalues')
        vecs = arr(self.ctx, ev.result[1], (mn, k), 'eigenvectors')
        K, G = self.ref_D(p), self.ref_G(p)
        ref = oracle.pencil(K, G)
        if ref is None:
            self.ctx.seen('singular plate, not judged')
            return
        lam = ref[0]
        big = abs(lam).max()
        t = 1e-6
        with np.errstate(all='ignore'):
            got = np.where(np.isinf(vals), 0., -1/vals)
        self.ctx.check(np.isfinite(got).all() and np.isfinite(vecs).all(), 'finite', 'an eigenvalue is nan', vals=vals, plate=self.show(p))
        d = np.sqrt(np.diag(K))
        for j in range(k):
            x = vecs[:, j]
            xs = x*d
            nrm = np.linalg.norm(xs)
            self.ctx.check(nrm > 0, 'zero-vector', f'eigenvector {j} is zero', plate=self.show(p))
            res = (G @ x-got[j]*(K @ x))/d/nrm
            self.ctx.close(res, 0*res, 10*t*big, 'eigenpair', f'pair {j}: (K + load factor * KG) x is not zero', plate=self.show(p), factor=vals[j])
        neg = lam[lam < -1e-9*big]
        self.ctx.check((np.diff(got) >= -t*big).all(), 'order', 'factors are not ascending', vals=vals, plate=self.show(p))
        q = min(k, len(neg))
        for j in range(q):
            self.ctx.check(abs(got[j]-lam[j]) <= t*abs(lam[j])+1e-9*big, 'lowest', f'factor {j} is {vals[j]}, the {j+1}. lowest positive one is {-1/lam[j]}',
                           vals=vals, want=-1/neg[:k], plate=self.show(p))
        self.ctx.seen('eigenpair', self.psig(p)+(num,), dict(self.show(p), num=num, factors=vals))
        self.ctx.events['eigenpair'] += k-1
        if q:
            self.ctx.seen('critical factor')
            if not .1 < vals[0] < 10:
                self.ctx.seen('critical factor far from 1')
        return vals, vecs

    def quiet(self, f, *a, **k):
        with contextlib.redirect_stdout(io.StringIO()):
            return self.ctx.sut(f, *a, **k)

    def lam(self, rng, **kw):
        if rng.random() < .3:
            return gen.lp_laminate(rng, **kw)
        return gen.laminate(rng, maxply=16)

    def usable(self, p):
        d = oracle.clt(p['lam'])[2]
        if (abs(self.ref_G(p)) <= 1e-9*self.g_scale(p).max()).all():
            return False        # the load does no work on any of the functions: KG is zero
        return np.linalg.eigvalsh(d)[0] > 1e-6*np.linalg.eigvalsh(d)[-1] and any(p['N']) and oracle.pencil(self.ref_D(p), self.ref_G(p)) is not None

    def good_plate(self, rng, lo=3, hi=6, **kw):
        """A plate whose bending stiffness is positive definite."""
        for _ in range(100):
            p = gen.plate(rng, self.lam(rng), m=int(rng.integers(lo, hi)), n=int(rng.integers(lo, hi)), **kw)
            if self.usable(p):
                return p
        raise RuntimeError('no plate')

    def long_plate(self, rng, most=96, **kw):
        """Many functions, at least along one side."""
        while True:
            m, n = perm(rng, gen.choice(rng, [[int(rng.integers(7, 22)), int(rng.integers(1, 5))], [int(rng.integers(6, 14)), int(rng.integers(6, 14))]]))
            if m*n > most:
                continue
            p = gen.plate(rng, self.lam(rng), m=m, n=n, **kw)
            if self.usable(p):
                return p


# ------------------------------------------------------------------------------- C13
def notations(rng, cons):
    """The same boundary conditions in every notation that can express them."""
    s = oracle.edge_sets(cons)
    listed = lambda e: gen.choice(rng, [list, list, tuple])(perm(rng, [d for d in ALLDOF if d in s[e]]))
    out = [{e: listed(e) for e in s}]
    full, pin = set(ALLDOF), set(ALLDOF[:3])
    w = {frozenset(full): ['clamped', 'fixed', 'CLAMPED', 'Fixed'], frozenset(pin): ['pinned', 'simply_supported', 'PINNED', 'Simply_Supported'],
         frozenset(): ['free', 'FREE', 'Free']}
    if any(s[e] in (full, pin, set()) for e in s):      # some edges by name, some by list
        out.append({e: gen.choice(rng, w[frozenset(s[e])]) if frozenset(s[e]) in w and rng.random() < .6
                    else listed(e) for e in s})
    if all(s[e] in (full, pin, set()) for e in s):
        for _ in range(2):
            out.append({e: gen.choice(rng, w[frozenset(s[e])]) for e in s})
        d = {e: gen.choice(rng, w[frozenset(s[e])]) for e in ('yb', 'x0', 'y0', 'xa')}
        out.append(d)
    if all(s[e] == full for e in s):
        out.append('CLAMPED')
    if all(s[e] == pin for e in s):
        out += ['PINNED', None]
    return out


class C13(Plate):
    """Boundary conditions: one basis per set of restrained motions, in any notation."""

    def subscribe(self, taps):
        taps.on('PlateStructure.calc_K_KG_D', self.judge_D)
        taps.on('PlateStructure.calc_K_KG_ABD', self.judge_ABD)
        taps.on('PlateStructure.buckling_analysis', self.on_modes)

    def on_modes(self, ev):
        r = self.judge_eig(ev)
        if r is None:
            return
        p = self.spec(ev)
        s = oracle.edge_sets(p['cons'])
        t = np.linspace(-1, 1, 7)
        m, n = p['m'], p['n']
        wm, wn = oracle.field_index(p['cons'], 'w', m, n)
        F = {d: (np.array([oracle.shape(i, np.array([-1., 1.]), d) for i in wm]), np.array([oracle.shape(i, np.array([-1., 1.]), d) for i in wn])) for d in (0, 1)}
        ft = (np.array([oracle.shape(i, t) for i in wm]), np.array([oracle.shape(i, t) for i in wn]))
        for j in range(r[1].shape[1]):
            c = r[1][:, j].reshape(len(wm), len(wn))
            w = ft[0].T @ c @ ft[1]
            big = abs(w).max()
            for e, k in (('x0', 0), ('xa', 1)):
                for dof, d in (('TZ', 0), ('RZ', 1)):
                    if dof in s[e]:
                        edge = F[d][0][:, k] @ c @ ft[1]
                        self.ctx.check(abs(edge).max() <= 1e-7*abs(c).max(), 'mode-edge', f'mode {j} violates {dof} of {e}', plate=self.show(p))
                        self.ctx.seen('edge condition')
            for e, k in (('y0', 0), ('yb', 1)):
                for dof, d in (('TZ', 0), ('RZ', 1)):
                    if dof in s[e]:
                        edge = ft[0].T @ c @ F[d][1][:, k]
                        self.ctx.check(abs(edge).max() <= 1e-7*abs(c).max(), 'mode-edge', f'mode {j} violates {dof} of {e}', plate=self.show(p))
                        self.ctx.seen('edge condition')
            del big

    def drive(self, rng, i):
        small = rng.random() < .5
        lo, hi = (1, 4) if small else (3, 6)
        for _ in range(100):
            p = gen.plate(rng, gen.laminate(rng, maxply=6), m=int(rng.integers(lo, hi)), n=int(rng.integers(lo, hi)), restrained=False)
            if any(p['N']):
                break
        if rng.random() < .04:
            p['m'], p['n'] = perm(rng, [int(rng.integers(7, 20)), int(rng.integers(1, 4))])
        u = rng.random()
        if u < .35:     # one motion of one edge differs from a uniform plate
            base = gen.choice(rng, [[], ALLDOF[:3], ALLDOF])
            c = {e: list(base) for e in oracle.EDGES}
            for _ in range(int(rng.integers(1, 3))):
                e, d = gen.choice(rng, oracle.EDGES), gen.choice(rng, ALLDOF)
                c[e] = sorted(set(c[e]) ^ {d})
            p['cons'] = c
        lam = self.b.laminate(p['lam'])
        want = None
        sets = oracle.edge_sets(p['cons'])
        for c in notations(rng, p['cons']):
            q = dict(p, cons=p['cons'])
            P = self.b.c.PlateStructure
            kw = dict(zip(('Nxx', 'Nyy', 'Nxy'), p['N']), m=p['m'], n=p['n'])
            given = copy.deepcopy(c)
            if c is not None:
                kw['constraints'] = given
            o = self.b.remember(self.ctx.sut(P, lam, p['a'], p['b'], **kw), q)
            r = self.ctx.sut(o.calc_K_KG_D)
            r = [np.asarray(x) for x in r]
            if want is None:
                want = r
            for x, y in zip(r, want):
                self.ctx.check(np.array_equal(x, y) or np.allclose(x, y, rtol=1e-10, atol=1e-10*abs(y).max()), 'notation', f'{c} and {p["cons"]} give different matrices')
            self.ctx.check(given == c, 'constraints-changed', 'the constraints given were modified', was=c, now=given)
            self.ctx.seen('notation', (str(sorted((e, tuple(sorted(v))) for e, v in sets.items())), str(c)))
        if p['m']*p['n'] <= 9 or rng.random() < .3:
            self.ctx.sut(o.calc_K_KG_ABD)
        if p['m']*p['n'] >= 3 and self.usable(p):
            self.ctx.sut(o.buckling_analysis)


# ------------------------------------------------------------------------------- C14
def sized(rng, p, big):
    u = rng.random()
    if u < big:
        k = [int(rng.integers(8, 27)), int(rng.integers(1, 3))]
        p['m'], p['n'] = perm(rng, k)
    elif u < big+.1:
        p['m'], p['n'] = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    elif u < big+.15:
        p['m'], p['n'] = int(rng.integers(6, 9)), int(rng.integers(6, 9))
    elif u < big+.17:
        p['m'], p['n'] = gen.choice(rng, [(10, 10), (9, 10), (11, 7), (6, 12)])
    elif u < big+.19:
        p['m'], p['n'] = perm(rng, gen.choice(rng, [(26, 5), (12, 11), (15, 8), (20, 6), (13, 12)]))
    return p


class C14(Plate):
    """K and KG of the bending problem."""

    def subscribe(self, taps):
        taps.on('PlateStructure.calc_K_KG_D', self.judge_D)

    def drive(self, rng, i):
        p = gen.plate(rng, self.lam(rng), restrained=False)
        sized(rng, p, .25)
        if i % 500 == 7:
            p['m'], p['n'] = gen.choice(rng, [(15, 14), (26, 8), (9, 24)])
        u = rng.random()
        if u < .25:     # one load at a time, on a plate that is not square
            p['N'] = [float(v) for v in np.eye(3)[int(rng.integers(3))]*float(rng.normal())]
        elif u < .3:
            p['N'] = [0., 0., 0.]
        fam = [p]
        if p['m']*p['n'] <= 30:
            q = gen.sibling_plate(rng, p)
            fam += [q, gen.sibling_plate(rng, q)] if q['m']*q['n'] < 40 else []
        objs = [self.b.plate(q) for q in fam]
        for o in perm(rng, objs+objs[:1]):
            self.ctx.sut(o.calc_K_KG_D)


class C15(Plate):
    """K and KG of the coupled problem."""

    def subscribe(self, taps):
        taps.on('PlateStructure.calc_K_KG_ABD', self.judge_ABD)

    def drive(self, rng, i):
        lam = gen.lp_laminate(rng) if rng.random() < .1 else gen.laminate(rng, maxply=10)
        p = gen.plate(rng, lam, m=int(rng.integers(1, 5)), n=int(rng.integers(1, 4)), restrained=False)
        u = rng.random()
        if u < .12:
            p['m'], p['n'] = perm(rng, [int(rng.integers(5, 12)), 1])
        elif u < .17:
            p['m'], p['n'] = 5, 5
        elif u < .19:
            p['m'], p['n'] = perm(rng, gen.choice(rng, [(22, 2), (8, 6), (7, 7), (13, 4), (16, 1)]))
        fam = [p]
        if p['m']*p['n'] <= 12:
            fam.append(gen.sibling_plate(rng, p))
        objs = [self.b.plate(q) for q in fam]
        for o in perm(rng, objs):
            K, KG = (np.asarray(x) for x in self.ctx.sut(o.calc_K_KG_ABD))
            mn = o.m*o.n
            if rng.random() < .5:
                Kd, Gd = (np.asarray(x) for x in self.ctx.sut(o.calc_K_KG_D))
                self.ctx.close(K[2*mn:, 2*mn:], Kd, 1e-10*abs(Kd).max(), 'ww-block', 'the ww block is not the bending stiffness')
                self.ctx.close(KG[2*mn:, 2*mn:], Gd, 1e-10*max(abs(Gd).max(), 1e-300), 'ww-block', 'the ww block is not the bending KG')
                self.ctx.seen('ww block')


# ------------------------------------------------------------------------------- C16
class C16(Plate):
    """buckling_analysis."""

    def subscribe(self, taps):
        taps.on('PlateStructure.buckling_analysis', self.judge_eig)

    def drive(self, rng, i):
        if i % 800 == 7:
            p = self.good_plate(rng, 3, 4)
            p['m'], p['n'] = gen.choice(rng, [(15, 14), (22, 10), (10, 21)])
            if self.usable(p):
                self.ctx.sut(self.b.plate(p).buckling_analysis)
                self.ctx.seen('more than 200 functions')
            return
        if rng.random() < .03:      # the default size, and other big ones
            p = self.good_plate(rng, *gen.choice(rng, [(10, 11), (7, 10), (8, 12)])) if rng.random() < .6 else self.long_plate(rng, 140)
            if rng.random() < .5:
                f = float(10**rng.uniform(-6, 7))
                p['N'] = [x*f for x in p['N']]
            self.ctx.sut(self.b.plate(p).buckling_analysis)
            self.ctx.seen('big plate')
            return
        if rng.random() < .04:      # a strip: many functions along one side
            p = self.good_plate(rng, 3, 5)
            p['m'], p['n'] = perm(rng, [int(rng.integers(8, 21)), int(rng.integers(1, 3))])
            if self.usable(p):
                self.ctx.sut(self.b.plate(p).buckling_analysis)
            return
        p = self.good_plate(rng, 2 if rng.random() < .4 else 3, 7)
        if p['m']*p['n'] < 3:
            p['m'] = 3
        u = rng.random()
        if u < .15:     # load magnitude such that no factor is near one
            f = float(10**rng.uniform(-7, 7))
            p['N'] = [x*f for x in p['N']]
        fam = [p]
        for _ in range(2):
            q = gen.sibling_plate(rng, gen.choice(rng, fam))
            if q['m']*q['n'] >= 3 and self.usable(q):
                fam.append(q)
        objs = [self.b.plate(q) for q in fam]
        for o in perm(rng, objs+objs[:1]):
            mode = int(rng.integers(4))
            num = int(gen.choice(rng, [1, 2, 3, 5, 8, 12, 40]))
            if mode == 0:
                self.ctx.sut(o.buckling_analysis)
            elif mode == 1:
                self.ctx.sut(o.buckling_analysis, num_eigvalues=num)
            elif mode == 2:
                self.quiet(o.buckling_analysis, silent=False)
            else:
                self.quiet(o.buckling_analysis, gen.choice(rng, [True, False]), num)
            v, x = o.eigenvalue, o.eigenvector
            self.ctx.check(isinstance(v, np.ndarray) and isinstance(x, np.ndarray), 'stored', 'eigenvalue/eigenvector are not stored')


# ------------------------------------------------------------------------------- C17
class C17(Plate):
    """Laws that relate the buckling factors of related plates (no reference computation)."""

    def factors(self, p, k=4):
        o = self.b.plate(p)
        v = np.asarray(self.ctx.sut(o.buckling_analysis, num_eigvalues=k)[0], dtype=float)
        with np.errstate(all='ignore'):
            return np.where(np.isinf(v), 0, -1/v)

    def swap_edges(self, c, m):
        if isinstance(c, str):
            return c
        return {e: copy.deepcopy(c[m[e]]) for e in oracle.EDGES}

    def whole(self, p):
        """The basis keeps all the Hermite functions the edges leave free."""
        s = oracle.edge_sets(p['cons'])
        fx = 4-sum('TZ' in s[e] for e in ('x0', 'xa'))-sum('RZ' in s[e] for e in ('x0', 'xa'))
        fy = 4-sum('TZ' in s[e] for e in ('y0', 'yb'))-sum('RZ' in s[e] for e in ('y0', 'yb'))
        return p['m'] >= fx and p['n'] >= fy

    def relam(self, p, f):
        lam = copy.deepcopy(p['lam'])
        f(lam)
        return lam

    def drive(self, rng, i):
        p = self.good_plate(rng, 3, 6) if rng.random() < .96 else self.long_plate(rng, 72)
        base = self.factors(p)
        lp = 'lp' in p['lam']
        neg = base[base < -1e-9*abs(base).max()]
        n = len(neg)
        if not n:
            return
        rel = []

        def law(name, q, factor):
            rel.append((name, q, factor))
        g = float(gen.choice(rng, [2, .5, 10, 1e-3, 1e4, rng.uniform(.1, 10)]))
        law('load scale', dict(p, N=[x*g for x in p['N']]), g)
        if lp:
            scale_e = self.relam(p, lambda l: l.update(mats=[dict(m, **{k: m[k]*g for k in ('e1', 'e2', 'g12')}) for m in l['mats']]))
            thick = self.relam(p, lambda l: l['lp'].update(T=l['lp']['T']*g))
            lp2 = lambda j: self.relam(p, lambda l: l['lp'].update(xiD=[x*y for x, y in zip(l['lp']['xiD'], j)]))
            mirror, swap, flip = lp2([1, -1, 1, -1]), lp2([-1, 1, 1, -1]), None
        else:
            scale_e = self.relam(p, lambda l: l.update(mats=[dict(m, **{k: m[k]*g for k in ('e', 'g', 'e1', 'e2', 'g12') if k in m}) for m in l['mats']]))
            thick = self.relam(p, lambda l: l.update(mats=[dict(m, thickness=m['thickness']*g) for m in l['mats']]))
            mirror = self.relam(p, lambda l: l.update(angles=[-t for t in l['angles']]))
            swap = self.relam(p, lambda l: l.update(angles=[90-t for t in l['angles']]))
            flip = self.relam(p, lambda l: l.update(angles=l['angles'][::-1], mats=l['mats'][::-1]))
        law('stiffness scale', dict(p, lam=scale_e), 1/g)
        law('thickness scale', dict(p, lam=thick), g**-3)
        h = float(gen.choice(rng, [2, .5, rng.uniform(.2, 4)]))
        law('size', dict(p, a=p['a']*h, b=p['b']*h), h*h)
        law('size and thickness', dict(p, lam=thick, a=p['a']*g, b=p['b']*g), 1/g)
        sw = {'x0': 'y0', 'xa': 'yb', 'y0': 'x0', 'yb': 'xa'}
        law('axes exchanged', dict(p, lam=swap, a=p['b'], b=p['a'], m=p['n'], n=p['m'], N=[p['N'][1], p['N'][0], p['N'][2]], cons=self.swap_edges(p['cons'], sw)), 1.)
        if flip is not None:
            law('turned upside down', dict(p, lam=flip), 1.)
        if self.whole(p):
            my = {'x0': 'x0', 'xa': 'xa', 'y0': 'yb', 'yb': 'y0'}
            mx = {'x0': 'xa', 'xa': 'x0', 'y0': 'y0', 'yb': 'yb'}
            mxy = {'x0': 'xa', 'xa': 'x0', 'y0': 'yb', 'yb': 'y0'}
            nm = [p['N'][0], p['N'][1], -p['N'][2]]
            law('mirror y', dict(p, lam=mirror, N=nm, cons=self.swap_edges(p['cons'], my)), 1.)
            law('mirror x', dict(p, lam=mirror, N=nm, cons=self.swap_edges(p['cons'], mx)), 1.)
            law('half turn', dict(p, cons=self.swap_edges(p['cons'], mxy)), 1.)
        pick = perm(rng, rel)[:5]
        for name, q, f in pick:
            r = self.factors(q)
            k = min(n, len(r))
            self.ctx.check(len(r) == len(base), 'count', 'number of factors')
            tol = 1e-6*abs(neg[:k]*f)+1e-8*abs(base*f).max()
            self.ctx.close(r[:k], neg[:k]*f, tol, name, f'buckling factors break the law: {name} ({f})', plate=self.show(p), other=self.show(q))
            self.ctx.seen(name, self.psig(p), dict(self.show(p), law=name, factor=-1/neg[0]))


# ------------------------------------------------------------------------------- C18
class C18(Plate):
    """Bounds and monotonicity of the critical factor."""

    def crit(self, p):
        """1/critical factor, 0 if there is none."""
        o = self.b.plate(p)
        v = np.asarray(self.ctx.sut(o.buckling_analysis)[0], dtype=float)
        v = v[(v > 0) & np.isfinite(v)]
        return 1/v.min() if len(v) else 0.

    def le(self, x, y, key, what, **w):
        """x <= y up to rounding."""
        self.ctx.check(x <= y*(1+1e-6)+1e-9*max(abs(x), abs(y)), key, f'{what}: {x} > {y}', **w)

    def nested(self, rng):
        long = rng.random() < .2
        p = self.long_plate(rng, 64) if long else self.good_plate(rng, 3, 6)
        if max(abs(x) for x in p['N']) == 0:
            return
        mu = self.crit(p)
        if long:
            big = 'm' if p['m'] >= p['n'] else 'n'
            q = dict(p)
            q[big] += int(rng.integers(1, 5))
        else:
            q = dict(p, m=p['m']+int(rng.integers(0, 3)), n=p['n']+int(rng.integers(0, 3)))
        self.le(mu, self.crit(q), 'refinement', 'more shape functions raised the critical factor', plate=self.show(p), finer=self.show(q))
        self.ctx.seen('refinement', self.psig(p), dict(self.show(p), critical=1/mu if mu else None))
        # more restraint in the same space
        c = oracle.edge_sets(p['cons'])
        c = {e: set(v) for e, v in c.items()}
        e = gen.choice(rng, oracle.EDGES)
        d = gen.choice(rng, ['TZ', 'RZ'])
        if d not in c[e]:
            c[e].add(d)
            q = dict(p, cons={k: sorted(v) for k, v in c.items()})
            r = dict(p)
            # the stiffer plate's basis is contained in the looser plate's one with one more function
            r['m' if e[0] == 'x' else 'n'] += 1
            if self.usable(q) and self.usable(r):
                self.le(self.crit(q), self.crit(r), 'restraint', f'restraining {d} of {e} lowered the critical factor', plate=self.show(r), stiffer=self.show(q))
                self.ctx.seen('restraint', self.psig(q))
        # loads: convex interaction, more compression never helps
        if long:
            self.ctx.seen('refinement from many functions')
            return
        n2 = [float(x) for x in rng.uniform(-1, 1, 3)*max(abs(x) for x in p['N'])]
        m1, m2, m3 = mu, self.crit(dict(p, N=n2)), self.crit(dict(p, N=[x+y for x, y in zip(p['N'], n2)]))
        self.le(m3, m1+m2, 'interaction', 'load interaction is not convex', plate=self.show(p), other=n2)
        self.ctx.seen('interaction', self.psig(p)+(rnd(n2),))
        comp = [-float(rng.uniform(0, 2))*max(abs(x) for x in p['N']), -float(rng.uniform(0, 2))*max(abs(x) for x in p['N']), 0.]
        k = int(rng.integers(2))
        comp[k] *= float(rng.random() < .5)
        self.le(mu, self.crit(dict(p, N=[x+y for x, y in zip(p['N'], comp)])), 'compression', 'more compression raised the critical factor', plate=self.show(p), added=comp)
        self.ctx.seen('compression', self.psig(p)+(rnd(comp),))

    def mixture(self, rng):
        """Critical load is concave in the lamination parameters."""
        for _ in range(50):
            lam = gen.lp_laminate(rng)
            p = gen.plate(rng, lam, m=4, n=int(rng.integers(3, 5)))
            other = gen.feasible_xi(rng)
            w = float(gen.choice(rng, [.5, rng.uniform(.1, .9)]))
            q = dict(p, lam=dict(lam, lp=dict(lam['lp'], xiD=other)))
            r = dict(p, lam=dict(lam, lp=dict(lam['lp'], xiD=[w*x+(1-w)*y for x, y in zip(lam['lp']['xiD'], other)])))
            if self.usable(p) and self.usable(q):
                break
        else:
            return
        a, b, c = self.crit(p), self.crit(q), self.crit(r)
        if a > 0 and b > 0 and c > 0:
            self.le(w/a+(1-w)/b, 1/c, 'mixture', 'critical factor is not concave in the lamination parameters', plate=self.show(p), other=other, w=w)
            self.ctx.seen('mixture', self.psig(p))

    def closed_form(self, rng):
        """Simply supported, specially orthotropic plates."""
        if rng.random() < .5:
            half = [int(gen.choice(rng, [0, 90])) for _ in range(int(rng.integers(1, 6)))]
            lam = gen.laminate(rng, single=True)
            a = half+half[::-1]
            lam = dict(lam, angles=a, mats=[lam['mats'][0]]*len(a), form='list')
        else:
            lam = gen.lp_laminate(rng)
            x = lam['lp']['xiD']
            lam = dict(lam, lp=dict(lam['lp'], xiD=[x[0], 0., x[2], 0.]))
        p = gen.plate(rng, lam, cons=gen.choice(rng, ['PINNED', {e: 'pinned' for e in oracle.EDGES}, {e: ['TZ'] for e in oracle.EDGES}]))
        p['b'] = p['a']*float(rng.uniform(.6, 1.7))
        r = float(gen.choice(rng, [0, .5, 1, rng.uniform(0, 2)]))
        s = float(10**rng.uniform(-3, 3))
        p['N'] = gen.choice(rng, [[-s, -r*s, 0.], [-r*s, -s, 0.]])
        D = oracle.clt(lam)[2]
        if np.linalg.eigvalsh(D)[0] < 1e-4*np.linalg.eigvalsh(D)[-1]:
            return
        a, b = p['a'], p['b']
        best = np.inf
        for k in range(1, 40):
            for l in range(1, 40):
                x, y = (k/a)**2, (l/b)**2
                v = np.pi**2*(D[0, 0]*x*x+2*(D[0, 1]+2*D[2, 2])*x*y+D[1, 1]*y*y)/(-p['N'][0]*x-p['N'][1]*y)
                if v < best:
                    best, at = v, (k, l)
        lo = max(3, at[0]+3), max(3, at[1]+3)
        if max(lo) > 8:
            return
        p['m'], p['n'] = lo
        o = self.b.plate(p)
        v = np.asarray(self.ctx.sut(o.buckling_analysis)[0], dtype=float)[0]
        self.ctx.check(v >= best*(1-1e-7), 'closed-form-bound', f'critical factor {v} below the exact one {best}', plate=self.show(p))
        self.ctx.check(v <= best*1.02, 'closed-form', f'critical factor {v}, exact {best}', plate=self.show(p), waves=at)
        self.ctx.seen('closed form', self.psig(p), dict(self.show(p), critical=v, exact=best))

    def drive(self, rng, i):
        [self.nested, self.mixture, self.closed_form][i % 3](rng)


# ------------------------------------------------------------------------------- C20
class C20(Plate):
    """The plotted surface is the mode asked for."""

    def subscribe(self, taps):
        import matplotlib.pyplot as plt
        from mpl_toolkits.mplot3d.axes3d import Axes3D
        self.plt = plt
        self.surfaces = []
        orig = Axes3D.plot_surface

        def record(ax, X, Y, Z, *a, **k):
            self.surfaces.append((np.array(X, float), np.array(Y, float), np.array(Z, float)))
            return orig(ax, X, Y, Z, *a, **k)
        Axes3D.plot_surface = record
        taps.on('PlateStructure.plot_eigenvalue', self.on_plot)
        taps.on('PlateStructure.buckling_analysis', self.on_eig)

    def on_eig(self, ev):
        self.modes[id(ev.obj)] = (np.array(ev.result[0]), np.array(ev.result[1]))

    def on_plot(self, ev):
        p = self.spec(ev)
        if p is None:
            return
        args = dict(zip(('nth', 'ngridx', 'ngridy'), ev.args))
        args.update(ev.kwargs)
        nth, gx, gy = args.get('nth', 0), args.get('ngridx', 20), args.get('ngridy', 20)
        self.ctx.check(len(self.surfaces) == 1, 'surfaces', f'{len(self.surfaces)} surfaces were drawn')
        X, Y, Z = self.surfaces[0]
        self.ctx.check(X.shape == Y.shape == Z.shape and X.size == gx*gy, 'grid', f'grid {X.shape} for {gx} by {gy}')
        xs, ys = np.linspace(0, p['a'], gx), np.linspace(0, p['b'], gy)
        mesh = np.meshgrid(xs, ys)
        got, want = (np.lexsort((np.ravel(Y), np.ravel(X))), np.lexsort((np.ravel(mesh[1]), np.ravel(mesh[0]))))
        order = lambda A, B: np.lexsort((np.round(np.ravel(B)/p['b'], 9), np.round(np.ravel(A)/p['a'], 9)))
        got, want = order(X, Y), order(*mesh)
        self.ctx.close(np.ravel(X)[got], np.ravel(mesh[0])[want], 1e-9*p['a'], 'grid', 'x of the grid', plate=self.show(p))
        self.ctx.close(np.ravel(Y)[got], np.ravel(mesh[1])[want], 1e-9*p['b'], 'grid', 'y of the grid', plate=self.show(p))
        vec = np.asarray(ev.obj.eigenvector)[:, nth]
        Zo = oracle.mode_shape(p['cons'], p['m'], p['n'], vec, 2*X/p['a']-1, 2*Y/p['b']-1)
        big = abs(Zo).max()
        if big < 1e-9*abs(vec).max():
            return          # a grid that only samples nodal lines
        f = float(np.sum(Z*Zo)/np.sum(Zo*Zo))
        self.ctx.check(abs(f) > 1e-12, 'flat', 'the surface is not the mode', plate=self.show(p), args=args)
        self.ctx.close(Z/f, Zo, 1e-6*big+1e-8*abs(vec).max(), 'surface', f'the surface is not mode {nth}', plate=self.show(p), args=args)
        # and that vector is a buckling mode of this plate with this number
        K, G = self.ref_D(p), self.ref_G(p)
        lam = oracle.pencil(K, G)[0]
        d = np.sqrt(np.diag(K))
        q = (vec @ G @ vec)/(vec @ K @ vec)
        res = (G @ vec-q*(K @ vec))/d/np.linalg.norm(vec*d)
        self.ctx.close(res, 0*res, 1e-5*abs(lam).max(), 'mode', 'the plotted vector is not a buckling mode', plate=self.show(p))
        if lam[nth] < -1e-6*abs(lam).max():
            self.ctx.close(q, lam[nth], 1e-5*abs(lam).max(), 'mode-number', f'the plotted mode is not number {nth}', plate=self.show(p))
        self.ctx.seen('surface', self.psig(p)+(nth, gx, gy), dict(self.show(p), nth=nth, grid=[gx, gy]))
        if gx != gy:
            self.ctx.seen('oblong grid')

    def drive(self, rng, i):
        self.modes = {}
        fam = [self.good_plate(rng, 2, 5) if rng.random() < .95 else self.long_plate(rng, 80)]
        if fam[0]['m']*fam[0]['n'] < 6:
            fam[0]['m'], fam[0]['n'] = 3, 3
        q = gen.sibling_plate(rng, fam[0])
        if q['m']*q['n'] >= 6 and self.usable(q):
            fam.append(q)
        last = {}
        if rng.random() < .25:      # one after the other, each gone before the next is made
            for _ in range(4):
                q = gen.sibling_plate(rng, fam[-1])
                if q['m']*q['n'] >= 6 and self.usable(q):
                    fam.append(q)
            for q in fam:
                self.b.reg.clear()
                self.draw(rng, self.b.plate(q), last)
        else:
            objs = [self.b.plate(q) for q in fam]
            for o in perm(rng, objs*2):
                self.draw(rng, o, last)

    def draw(self, rng, o, last):
        k = min(5, o.m*o.n-2)
        u = rng.random()
        if u < .4:
            self.ctx.sut(o.buckling_analysis)
        elif u < .5:
            k = min(o.m*o.n-2, int(gen.choice(rng, [1, 2, 3, 4, 7, 12])))
            self.ctx.sut(o.buckling_analysis, num_eigvalues=k)
        elif u < .6:
            self.ctx.sut(gen.choice(rng, [o.calc_K_KG_D, o.calc_K_KG_D]))
        if o.eigenvector is not None:
            k = o.eigenvector.shape[1]
        kw = {}
        if rng.random() < .8:
            kw['nth'] = int(rng.integers(k))
        if rng.random() < .8:
            kw['ngridx'], kw['ngridy'] = int(rng.integers(2, 9)), int(rng.integers(2, 9))
            if rng.random() < .04:
                kw[gen.choice(rng, ['ngridx', 'ngridy'])] = int(rng.integers(20, 60))
        elif rng.random() < .7:
            kw[gen.choice(rng, ['ngridx', 'ngridy'])] = int(rng.integers(3, 9))
        if last and rng.random() < .4 and last.get('nth', 0) < k:
            kw = dict(last)     # the same picture of another plate
        last.clear()
        last.update(kw)
        del self.surfaces[:]
        try:
            if rng.random() < .2 and len(kw) == 3:
                self.ctx.sut(o.plot_eigenvalue, kw['nth'], kw['ngridx'], kw['ngridy'])
            else:
                self.ctx.sut(o.plot_eigenvalue, **kw)
        finally:
            self.plt.close('all')


# ------------------------------------------------------------------------------- C27
class C27(Plate):
    """Histories over several plates that share laminates and constraints."""

    def subscribe(self, taps):
        taps.on('PlateStructure.calc_K_KG_D', self.judge_D)
        taps.on('PlateStructure.calc_K_KG_ABD', self.judge_ABD)
        taps.on('PlateStructure.buckling_analysis', self.judge_eig)
        for n in ('calc_K_KG_D', 'calc_K_KG_ABD', 'buckling_analysis'):
            taps.on('PlateStructure.'+n, self.keep)

    def keep(self, ev):
        if self.spec(ev) is not None:
            self.kept.append((ev.name, ev.result, [np.array(x, copy=True) for x in ev.result]))

    def step(self, f, *a, **k):
        return self.ctx.sut(f, *a, **k)

    def drive(self, rng, i):
        self.kept = []
        import matplotlib.pyplot as plt
        P = self.b.c.PlateStructure
        p = self.good_plate(rng, 2, 5) if rng.random() < .96 else self.long_plate(rng, 40)
        if p['m']*p['n'] < 4:
            p['m'], p['n'] = 3, 3
        fam = [p]
        for _ in range(12):
            q = gen.sibling_plate(rng, gen.choice(rng, fam))
            if q['m']*q['n'] >= 4 and q['m']*q['n'] <= 20 and self.usable(q):
                fam.append(q)
            if len(fam) == 4:
                break
        lams = {}
        inputs = []
        objs = []
        shared = {}
        for q in fam:
            k = id(q['lam'])
            if k not in lams:
                lams[k] = (self.b.laminate(q['lam']), q['lam'])
            ck = str(q['cons'])
            if ck not in shared:
                c = copy.deepcopy(q['cons'])
                shared[ck] = (c, copy.deepcopy(c))
            kw = dict(zip(('Nxx', 'Nyy', 'Nxy'), q['N']), m=q['m'], n=q['n'], constraints=shared[ck][0])
            objs.append(self.b.remember(self.ctx.sut(P, lams[k][0], q['a'], q['b'], **kw), q))
        # plates with default constraints, before and after the others work
        d = dict(p, cons='PINNED')
        if self.usable(d):
            for _ in range(2):
                objs.append(self.b.remember(self.ctx.sut(P, lams[id(p['lam'])][0], d['a'], d['b'], **dict(zip(('Nxx', 'Nyy', 'Nxy'), d['N'])), m=d['m'], n=d['n']), d))
        first = {}
        for step in range(12):
            o = gen.choice(rng, objs)
            act = gen.choice(rng, ['D', 'ABD', 'eig', 'eigk', 'plot', 'read'], [.2, .1, .3, .2, .1, .1])
            if act == 'D':
                self.step(o.calc_K_KG_D)
            elif act == 'ABD' and o.m*o.n <= 12:
                self.step(o.calc_K_KG_ABD)
            elif act in ('eig', 'eigk'):
                num = 5 if act == 'eig' else int(rng.integers(1, 8))
                v, x = self.step(o.buckling_analysis, **({} if act == 'eig' else {'num_eigvalues': num}))
                self.ctx.check(np.array_equal(v, o.eigenvalue) and np.array_equal(x, o.eigenvector), 'stored', 'stored eigenpairs are not the last result')
                with np.errstate(all='ignore'):
                    mu = -1/np.asarray(v)
                if id(o) in first:
                    k = min(len(mu), len(first[id(o)]))
                    neg = (mu[:k] < -1e-7*abs(mu).max())
                    self.ctx.close(mu[:k][neg], first[id(o)][:k][neg], 1e-6*abs(mu).max(), 'repeat', 'a repeated analysis gives other factors', plate=self.show(self.b.spec_of(o)))
                    self.ctx.seen('repeated analysis', self.psig(self.b.spec_of(o)))
                else:
                    first[id(o)] = mu
            elif act == 'plot':
                ev = o.eigenvalue
                try:
                    self.step(o.plot_eigenvalue, ngridx=3, ngridy=4)
                finally:
                    plt.close('all')
                if ev is not None:
                    self.ctx.check(o.eigenvalue is ev or np.array_equal(o.eigenvalue, ev), 'stored', 'plotting changed the stored factors')
            else:
                lam = gen.choice(rng, list(lams.values()))[0]
                self.step(getattr, lam, gen.choice(rng, ['A', 'B', 'D', 'ABD']))
        for c, was in shared.values():
            self.ctx.check(c == was, 'input-changed', 'the constraints given were modified', now=c, was=was)
        for o in objs:
            q = self.b.spec_of(o)
            for k, v in zip(('a', 'b', 'Nxx', 'Nyy', 'Nxy', 'm', 'n'), [q['a'], q['b']]+list(q['N'])+[q['m'], q['n']]):
                self.ctx.check(getattr(o, k) == v, 'attribute-changed', f'{k} changed')
        for lam, s in lams.values():
            a, b, dd = oracle.clt(s)
            sc = oracle.abd_scale(s)
            for n, w, t in (('A', a, sc[0]), ('B', b, sc[1]), ('D', dd, sc[2])):
                self.ctx.close(getattr(lam, n), w, 1e-10*t, 'laminate-changed', f'{n} of the shared laminate')
        for name, live, snap in self.kept:
            self.ctx.check(all(np.array_equal(np.asarray(x), y) for x, y in zip(live, snap)), 'result-changed', f'a result of {name} changed after it was returned')
            self.ctx.seen('result still intact')
