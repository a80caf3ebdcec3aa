"""C09-C12: laminate strains, stresses and margins under loads."""
import numpy as np

from .. import gen, oracle
from ..core import rnd
from .base import Check, perm
from .laminate import family

EPS = ['epsilonx', 'epsilony', 'gammaxy']
EPS1 = ['epsilon1', 'epsilon2', 'gamma12']
SIG = ['sigmax', 'sigmay', 'tauxy']
SIG1 = ['sigma1', 'sigma2', 'tau12']


class Strength(Check):
    iso = None
    lp = False

    def cols(self, df, names):
        try:
            return np.array([[float(v) for v in df[c]] for c in names]).T
        except Exception as e:
            self.ctx.fail('table', f'columns {names}: {type(e).__name__} {e}', columns=list(getattr(df, 'columns', [])))

    def state(self, ev):
        return self.b.spec_of(ev.obj)

    def sig(self, st):
        return (tuple(map(str, st['lam'].get('angles', ()))), rnd(st['loads'], 8))

    def thickness(self, s):
        return float(s['lp']['T']) if 'lp' in s else float(sum(m['thickness'] for m in s['mats']))

    def drive(self, rng, i):
        objs = []
        for s in family(rng, allow=True, iso=self.iso)[:3]:
            if self.iso == 0 and rng.random() < .4:
                s = dict(s, mats=[dict(m, **{k: (m[k] if rng.random() < .8 else m[k]*.05 if rng.random() < .7 else np.inf) for k in ('t1', 'c1', 't2', 'c2', 's')}) for m in s['mats']], single=False)
            lam = self.b.laminate(s)
            for _ in range(2):
                x = gen.loads6(rng, s)
                objs.append(self.b.strength(lam, x))
            if rng.random() < .3:
                objs.append(self.b.strength(lam, [-v for v in x]))
            if rng.random() < .3:
                objs.append(self.b.strength(lam, [v*1000 for v in x]))
        if self.lp:
            for _ in range(2):
                s = gen.lp_laminate(rng, with_a=True)
                if np.linalg.eigvalsh(oracle.clt(s)[0])[0] > 0 and np.linalg.eigvalsh(oracle.clt(s)[2])[0] > 0:
                    self.ctx.sut(self.b.strength(self.b.laminate(s), gen.loads6(rng, s)).epsilon0)
        for o in perm(rng, objs):
            for n in perm(rng, self.calls):
                self.ctx.sut(getattr(o, n))
        for o in perm(rng, objs)[:2]:
            self.ctx.sut(getattr(o, gen.choice(rng, self.calls)))


class C09(Strength):
    """Equilibrium: the reported stresses carry the applied forces and moments."""
    calls = ['epsilon0', 'calculate_stress']
    lp = True

    def subscribe(self, taps):
        taps.on('LaminateStrength.calculate_stress', self.on_stress)
        taps.on('LaminateStrength.epsilon0', self.on_e0)

    def on_e0(self, ev):
        st = self.state(ev)
        if st is None:
            return
        e0 = np.asarray(ev.result, dtype=float)
        self.ctx.check(e0.shape == (6,), 'shape', f'epsilon0 has shape {e0.shape}')
        a, b, d = oracle.clt(st['lam'])
        abd = np.block([[a, b], [b, d]])
        T = self.thickness(st['lam'])
        x = np.asarray(st['loads'], dtype=float)
        sc = np.array([1, 1, 1, T, T, T])
        big = (np.abs(abd) @ np.abs(e0)/sc).max()
        self.ctx.close((abd @ e0)/sc, x/sc, 1e-8*big, 'epsilon0', 'ABD epsilon0 is not the applied load', state=st, epsilon0=e0)
        self.ctx.seen('epsilon0', self.sig(st) if 'angles' in st['lam'] else ('lp', rnd(x)), {'loads': st['loads'], 'epsilon0': e0})

    def on_stress(self, ev):
        st = self.state(ev)
        if st is None:
            return
        s = st['lam']
        n = len(s['angles'])
        sg = self.cols(ev.result, SIG)
        self.ctx.check(sg.shape == (2*n, 3), 'rows', f'{sg.shape[0]} rows for {n} plies')
        z = oracle.z_faces(s)
        N, M = np.zeros(3), np.zeros(3)
        Na, Ma = 0., 0.
        for k in range(n):
            sb, s_t = sg[2*k], sg[2*k+1]
            h = z[k+1]-z[k]
            N += h*(sb+s_t)/2
            M += h/6*(sb*(2*z[k]+z[k+1])+s_t*(z[k]+2*z[k+1]))
            Na += h*(abs(sb)+abs(s_t)).max()
            Ma += h/6*max(abs(z[k]), abs(z[k+1]))*3*(abs(sb)+abs(s_t)).max()
        x = np.asarray(st['loads'], dtype=float)
        T = self.thickness(s)
        big = max(Na, Ma/T)
        self.ctx.close(N, x[:3], 1e-8*big, 'equilibrium-N', 'the stresses do not carry the membrane forces', state=st)
        self.ctx.close(M/T, x[3:]/T, 1e-8*big, 'equilibrium-M', 'the stresses do not carry the moments', state=st)
        self.ctx.seen('equilibrium', self.sig(st), {'angles': s['angles'], 'loads': st['loads'], 'N': N, 'M': M})


class C10(Strength):
    """Strain field linear through the thickness; layout of the tables."""
    calls = ['calculate_strain', 'calculate_stress', 'epsilon0', 'calculate_strain']

    def subscribe(self, taps):
        taps.on('LaminateStrength.calculate_strain', self.on_table)
        taps.on('LaminateStrength.calculate_stress', self.on_table)

    def on_table(self, ev):
        st = self.state(ev)
        if st is None:
            return
        s, df = st['lam'], ev.result
        n = len(s['angles'])
        T = self.thickness(s)
        zf = oracle.z_faces(s)
        lab = self.cols(df, ['ply', 'z', 'angle'])
        self.ctx.check(lab.shape[0] == 2*n, 'rows', f'{lab.shape[0]} rows for {n} plies')
        want_z = np.ravel([[zf[k], zf[k+1]] for k in range(n)])
        self.ctx.check(list(lab[:, 0]) == [k+1 for k in range(n) for _ in (0, 1)], 'ply', 'ply numbers', got=lab[:, 0])
        self.ctx.check(list(df['position']) == ['bot', 'top']*n, 'position', 'bot/top labels', got=list(df['position']))
        self.ctx.check(list(lab[:, 2]) == [float(t) for t in s['angles'] for _ in (0, 1)], 'angle', 'ply angles', got=lab[:, 2])
        self.ctx.close(lab[:, 1], want_z, 1e-11*T, 'z', 'z of the rows', state=st)
        if ev.name.endswith('strain'):
            e0 = oracle.midplane(s, st['loads'])
            got = self.cols(df, EPS)
            want = e0[:3]+np.outer(want_z, e0[3:])
            tol = 1e-8*max(abs(e0[:3]).max(), abs(e0[3:]).max()*T)
            self.ctx.close(got, want, tol, 'strain', 'strain is not epsilon0 + z kappa', state=st)
            jump = abs(got[1:-1:2]-got[2::2])
            self.ctx.check(not jump.size or jump.max() <= tol, 'continuity', 'strain jumps between plies', state=st)
            self.ctx.seen('strain table', self.sig(st), {'angles': s['angles'], 'loads': st['loads'], 'strains': got[:4]})
        else:
            self.ctx.seen('stress table layout', self.sig(st))


class C11(Strength):
    """Plate axes, material axes and Hooke's law row by row."""
    calls = ['calculate_strain', 'calculate_stress']

    def subscribe(self, taps):
        taps.on('LaminateStrength.calculate_strain', self.on_strain)
        taps.on('LaminateStrength.calculate_stress', self.on_stress)
        self.last = {}

    def on_strain(self, ev):
        st = self.state(ev)
        if st is None:
            return
        s = st['lam']
        e, e1 = self.cols(ev.result, EPS), self.cols(ev.result, EPS1)
        for k, t in enumerate(s['angles']):
            for r in (2*k, 2*k+1):
                big = abs(e[r]).max()
                self.ctx.close(e1[r], oracle.t_strain(t) @ e[r], 1e-9*big, 'strain-axes', f'strains of ply {k+1} in material axes', state=st)
            self.ctx.seen('strain transform', (str(t), rnd(e[2*k], 5)), {'angle': t, 'plate': e[2*k], 'material': e1[2*k]})
        self.last[id(ev.obj)] = (ev.obj, list(st['loads']), e, e1)
        self.pair(ev.obj, st)

    def on_stress(self, ev):
        st = self.state(ev)
        if st is None:
            return
        s = st['lam']
        g, g1 = self.cols(ev.result, SIG), self.cols(ev.result, SIG1)
        for k, t in enumerate(s['angles']):
            for r in (2*k, 2*k+1):
                big = abs(g[r]).max()
                self.ctx.close(g1[r], oracle.t_stress(t) @ g[r], 1e-9*big, 'stress-axes', f'stresses of ply {k+1} in material axes', state=st)
            self.ctx.seen('stress transform', (str(t), rnd(g[2*k], 5)))
        self.stress[id(ev.obj)] = (ev.obj, list(st['loads']), g, g1)
        self.pair(ev.obj, st)

    def pair(self, o, st):
        if id(o) not in self.last or id(o) not in self.stress:
            return
        _, x1, e, e1 = self.last[id(o)]
        _, x2, g, g1 = self.stress[id(o)]
        s = st['lam']
        emax = abs(e).max()
        for k, t in enumerate(s['angles']):
            q0 = oracle.ply_Q(s['mats'][k])
            qm = abs(q0).max()
            for r in (2*k, 2*k+1):
                self.ctx.close(g1[r], q0 @ e1[r], 1e-8*qm*emax, 'hooke', f'ply {k+1}: stress is not stiffness times strain', state=st)
                self.ctx.close(g[r], oracle.q_bar(s['mats'][k], t) @ e[r], 1e-8*qm*emax, 'hooke-plate', f'ply {k+1}', state=st)
                self.ctx.close(g[r] @ e[r], g1[r] @ e1[r], 1e-8*qm*emax**2, 'energy', f'ply {k+1}: energy depends on the axes', state=st)
            self.ctx.seen('hooke', (str(t), rnd(e[2*k], 5)))

    def drive(self, rng, i):
        self.last, self.stress = {}, {}
        super().drive(rng, i)


class C12(Strength):
    """Maximum stress margins."""
    calls = ['calculate_maxstressmargin']
    iso = 0
    COLS = ['margin_t1', 'margin_c1', 'margin_t2', 'margin_c2', 'margin_s']

    def subscribe(self, taps):
        taps.on('LaminateStrength.calculate_maxstressmargin', self.on_margin)

    def on_margin(self, ev):
        st = self.state(ev)
        if st is None:
            return
        s, df = st['lam'], ev.result
        n = len(s['angles'])
        if not any(st['loads']):
            return
        lo, hi = oracle.margins(s, st['loads'])
        got = self.cols(df, self.COLS)
        lab = self.cols(df, ['ply', 'angle'])
        self.ctx.check(got.shape[0] == 2*n, 'rows', f'{got.shape[0]} rows for {n} plies')
        self.ctx.check(list(lab[:, 0]) == [k+1 for k in range(n) for _ in (0, 1)], 'ply', 'ply numbers')
        self.ctx.check(list(df['position']) == ['bot', 'top']*n, 'position', 'bot/top labels', got=list(df['position']))
        self.ctx.check(list(lab[:, 1]) == [float(t) for t in s['angles'] for _ in (0, 1)], 'angle', 'ply angles')
        crit = list(df['critical'])
        for k, t in enumerate(s['angles']):
            for j in (0, 1):
                r = 2*k+j
                ok = (got[r] >= lo[r]) & (got[r] <= hi[r])
                self.ctx.check(ok.all(), 'margin', f'ply {k+1} {("bot", "top")[j]}: margins {got[r]} outside [{lo[r]}, {hi[r]}]', state=st)
                self.ctx.check(crit[r] in self.COLS and got[r][self.COLS.index(crit[r])] == got[r].min(), 'critical',
                               f'ply {k+1}: critical is {crit[r]}, margins {got[r]}', state=st)
                self.ctx.seen('margins', (str(t), rnd(got[r], 6)), {'angle': t, 'margins': got[r], 'critical': crit[r]})
                self.ctx.seen('critical '+crit[r])
                self.ctx.seen('tension' if hi[r][1] == np.inf else 'compression')
