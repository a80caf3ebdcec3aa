"""C34: what the program let go of is released; C35: calls that say the same give the same."""
import contextlib
import copy
import gc
import io
import sys
import warnings
import weakref

import numpy as np

from .. import gen, oracle
from .base import Check, perm
from .nastran import expression
from .plate import Plate


class C34(Check):
    """The number of live objects and of allocated blocks in the course of long runs."""
    # scenario: steps before the first measurement, steps between the following ones
    LONG = {'materials': (3000, 600), 'laminates': (1100, 250), 'parameters': (1200, 300), 'strength': (1100, 120), 'plates': (1100, 250), 'coupled plates': (1100, 100),
            'one plate again': (600, 250), 'one laminate again': (900, 300), 'one strength analysis again': (300, 120), 'copies': (600, 200), 'sequences': (1500, 400),
            'cards': (1500, 400), 'rejected': (1200, 300), 'maximised': (60, 60), 'minimised': (60, 60), 'pictures': (140, 40), 'design spaces': (20, 20), 'comparisons': (800, 200)}

    def subscribe(self, taps):
        import matplotlib.pyplot as plt
        self.plt = plt
        self.helper = Plate()
        self.helper.ctx, self.helper.b = self.ctx, self.b

    def new(self, o):
        k = self.serial = self.serial+1
        self.alive[k] = weakref.ref(o, lambda _, k=k, d=self.alive: d.pop(k, None))
        return o

    def ply(self, rng, **kw):
        m = gen.material(rng, gen.choice(rng, ['MPa-mm', 'Pa-m']), 0, True)
        return self.new(self.c.OrthotropicMaterial(**{k: v for k, v in m.items() if k != 'kind'}, **kw))

    def laminate(self, rng, n=None):
        n = n or int(rng.integers(1, 6))
        pl = self.ply(rng) if rng.random() < .5 else [self.ply(rng) for _ in range(n)]
        return self.new(self.c.LaminateProperty([gen.angle(rng) for _ in range(n)], pl))

    def plate(self, rng, m=2, n=2):
        a, b = rng.uniform(100, 400, 2)
        return self.new(self.c.PlateStructure(self.laminate(rng), float(a), float(b), gen.constraints(rng), Nxx=-float(rng.uniform(.5, 2)), m=m, n=n))

    # one step of each scenario
    def materials(self, rng):
        p = self.ply(rng, **({'name': f'P{rng.integers(10**9)}'} if rng.random() < .3 else {}))
        p.Q_0, p.v21, repr(p), p.Invariants()
        q = self.new(self.c.IsotropicMaterial(float(rng.uniform(1, 9)), .3, float(rng.uniform(1, 3)), .2))
        q.Q_0, q.name

    def laminates(self, rng):
        o = self.laminate(rng)
        for n in perm(rng, ['A', 'B', 'D', 'ABD', 'xiA', 'xiD', 'Q_layup', 'T_layup', 'z_position'])[:5]:
            getattr(o, n)

    def parameters(self, rng):
        s = gen.lp_laminate(rng, 'MPa-mm', True)
        o = self.new(self.c.LaminateProperty(s['lp'], self.ply(rng)))
        o.ABD, o.xiD, repr(o)

    def tables(self, o):
        o.epsilon0()
        o.calculate_strain()
        o.calculate_maxstressmargin()

    def strength(self, rng):
        self.tables(self.new(self.c.LaminateStrength(self.laminate(rng, 2), *map(float, rng.normal(size=6)))))

    def plates(self, rng):
        self.plate(rng, int(rng.integers(2, 4)), 2).buckling_analysis(num_eigvalues=int(rng.integers(1, 4)))

    def coupled_plates(self, rng):
        self.plate(rng, 2, 1).calc_K_KG_ABD()

    def one_plate_again(self, rng):
        if not self.kept:
            self.kept.append(self.plate(rng))
        o = self.kept[0]
        o.buckling_analysis(num_eigvalues=int(rng.integers(1, 4))) if rng.random() < .5 else o.calc_K_KG_D()
        o.constraints

    def one_laminate_again(self, rng):
        if not self.kept:
            self.kept.append(self.laminate(rng))
        o = self.kept[0]
        for n in perm(rng, ['A', 'B', 'D', 'ABD', 'xiA', 'xiD', 'Q_layup', 'T_layup', 'z_position'])[:5]:
            getattr(o, n)
        self.new(self.c.LaminateProperty(o.stacking, o.plies)).D
        self.new(self.c.LaminateStrength(o, 1.)).epsilon0()
        self.new(self.c.PlateStructure(o, 100, 200, Nxx=-1, m=1, n=2)).calc_K_KG_D()

    def one_strength_analysis_again(self, rng):
        if not self.kept:
            self.kept.append(self.c.LaminateStrength(self.laminate(rng, 3)))
        o = self.kept[0]
        o.Nxx, o.Mxy = map(float, rng.normal(size=2))
        self.tables(o)

    def copies(self, rng):
        import pickle
        if not self.kept:
            self.kept += [self.laminate(rng), self.plate(rng)]
        for o in self.kept:
            for f in (copy.copy, copy.deepcopy, lambda o: pickle.loads(pickle.dumps(o))):
                q = self.new(f(o))
                q.D if hasattr(q, 'D') else q.calc_K_KG_D()

    def sequences(self, rng):
        t, p = expression(rng)
        if len(p) < 400:
            self.api.build_sequence(t)

    def cards(self, rng):
        n = int(rng.integers(1, 12))
        self.api.build_pcomp([gen.angle(rng) for _ in range(n)], 1, [float(x) for x in rng.random(n)], pid=int(rng.integers(1, 10**6)), sout=gen.choice(rng, ['YES', 'NO', 'FIBER']))

    def rejected(self, rng):
        p = self.ply(rng)
        x = -float(rng.uniform(.1, 1))
        for f, a in ((self.c.OrthotropicMaterial, (x, 1, .3, 1, 1)), (self.c.IsotropicMaterial, (1, .3, 1, x)), (self.c.LaminateProperty, ([0, x], [p])),
                     (self.c.LaminateProperty, ({'xiA': [x]*4}, p)), (self.c.PlateStructure, (p, 1, 1)), (self.c.PlateStructure, (self.laminate(rng), x, 1)),
                     (self.api.build_pcomp, ([0, x], [1], .1))):
            try:
                f(*a)
            except (ValueError, KeyError):
                pass

    def panel(self, rng):
        return dict(a=float(rng.uniform(100, 400)), b=float(rng.uniform(100, 400)), E1=float(rng.uniform(1e5, 2e5)), E2=1e4, v12=.3, G12=5e3, Nxx=-1., Nyy=-float(rng.uniform(.1, .9)),
                    m=2, n=2, panel_constraint=gen.choice(rng, ['PINNED', 'CLAMPED']), options={'maxiter': 3})

    def maximised(self, rng):
        self.opt.maximize_buckling_load(T=float(rng.uniform(.5, 2)), penalty=bool(rng.random() < .5), **self.panel(rng))

    def minimised(self, rng):
        self.opt.minimize_panel_weight(**self.panel(rng), **({'x0': [float(rng.uniform(.5, 1)), 0., 0.]} if rng.random() < .5 else {}))

    def pictures(self, rng):
        self.plate(rng).plot_eigenvalue(ngridx=3, ngridy=3)
        self.plt.close('all')

    def design_spaces(self, rng):
        self.opt.maximize_buckling_load(T=float(rng.uniform(.5, 2)), plot=True, points_to_plot=4, **self.panel(rng))
        self.plt.close('all')

    def comparisons(self, rng):
        a, b = self.laminate(rng, 3), self.laminate(rng, 3)
        a == b, a != b, a == 3, a.plies[0] == b.plies[0]
        hasattr(a, 'nothing')

    def run(self, rng, step, n):
        out = io.StringIO()
        with contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for _ in range(n):
                step(rng)

    def level(self):
        gc.collect()
        return sys.getallocatedblocks(), len(self.alive)

    def drive(self, rng, i):
        import composipy
        import composipy.nastranapi as api
        import composipy.optimize as opt
        self.c, self.api, self.opt = composipy, api, opt
        name = list(self.LONG)[i % len(self.LONG)]
        first, then = self.LONG[name]
        step = getattr(self, name.replace(' ', '_'))
        self.alive, self.serial = {}, 0
        self.kept = []
        with self.taps.mute():
            self.ctx.sut(self.run, rng, step, first)
            levels = [self.level()]
            for _ in range(3):
                self.ctx.sut(self.run, rng, step, then)
                levels.append(self.level())
            slow, grown, held = self.growth(levels, then, name)
            if slow:
                # numpy and scipy fill small pools of their own (some hundred blocks): look on for longer
                more = then*(4 if then >= 200 else 2)
                levels = [self.level()]
                for _ in range(3):
                    self.ctx.sut(self.run, rng, step, more)
                    levels.append(self.level())
                slow, grown, held = self.growth(levels, more, name)
                self.ctx.check(not slow, 'memory', f'{name}: {grown} more blocks allocated after {more} more steps each', levels=levels)
        self.kept.clear()

    def growth(self, levels, steps, name):
        grown = [b[0]-a[0] for a, b in zip(levels, levels[1:])]
        held = [b[1]-a[1] for a, b in zip(levels, levels[1:])]
        for k in range(3):
            self.ctx.seen(name, (self.ctx.case, k, steps), {'scenario': name, 'steps': steps, 'blocks allocated': levels[k+1][0], 'more than before': grown[k], 'objects alive': levels[k+1][1]})
        # a cache of at most a thousand entries fills and stops growing
        self.ctx.check(not min(held) > .1*steps, 'objects', f'{name}: {held} more objects alive after {steps} more steps each, though none is in use', levels=levels)
        # pyplot and its text layout keep some things of their own
        return min(grown) > .4*steps+(120 if name in ('pictures', 'design spaces') else 15), grown, held


NO = object()       # no default
PIN = ['TX', 'TY', 'TZ']


class C35(Check):
    """The same call said in different ways: by position or keyword, defaults left out, numbers and containers of other types."""

    def subscribe(self, taps):
        import matplotlib.pyplot as plt
        from mpl_toolkits.mplot3d import Axes3D
        self.plt = plt
        self.helper = Plate()
        self.helper.ctx, self.helper.b = self.ctx, self.b
        self.surfaces = []
        orig = Axes3D.plot_surface

        def record(ax, X, Y, Z, *a, **k):
            self.surfaces.append([np.array(v, float) for v in (X, Y, Z)])
            return orig(ax, X, Y, Z, *a, **k)
        Axes3D.plot_surface = record

    # -- ways to say a value
    def number(self, rng, v, whole=False):
        """The same number in another type."""
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        forms = [float(v), np.float64(v)] if not whole else []
        if float(v) == int(v) and abs(v) < 2**31:
            forms += [int(v), np.int64(v), np.int32(v)]
        if not whole and float(np.float32(v)) == float(v):
            forms.append(np.float32(v)) if self.narrow else None
        return gen.choice(rng, forms)

    def row(self, rng, v, arrays=True):
        form = gen.choice(rng, [list, tuple]+[np.array]*arrays)
        return np.array([float(x) for x in v]) if form is np.array else form(self.number(rng, x) for x in v)

    def edges(self, rng, c):
        s = oracle.edge_sets(c)
        names = {frozenset(PIN): ['pinned', 'simply_supported'], frozenset(): ['free'], frozenset(PIN+['RX', 'RY', 'RZ']): ['clamped', 'fixed']}
        if rng.random() < .3:
            for k, v in (('PINNED', PIN), ('CLAMPED', PIN+['RX', 'RY', 'RZ'])):
                if all(set(x) == set(v) for x in s.values()):
                    return k
        out = {}
        for e in perm(rng, s):
            n = names.get(frozenset(s[e]))
            if n and rng.random() < .5:
                n = gen.choice(rng, n)
                out[e] = gen.choice(rng, [n, n.upper(), n.capitalize()])
            else:
                out[e] = gen.choice(rng, [list, tuple])(perm(rng, sorted(s[e])))
        return out

    def spell(self, rng, params):
        """(args, kwargs) that say the same as params: [(name, way to say it, default, value)]."""
        p = int(rng.integers(len(params)+1)) if rng.random() < .6 else 0
        args, kw = [], {}
        for k, (name, say, default, value) in enumerate(params):
            if k < p:
                args.append(say(rng, value))
            elif default is NO or not self.same(value, default) or rng.random() < .3:
                kw[name] = say(rng, value)
        return args, {k: kw[k] for k in perm(rng, kw)}

    def same(self, v, default):
        if type(v) is not type(default) and not (isinstance(v, (int, float)) and isinstance(default, (int, float)) and not isinstance(v, bool)):
            return False
        return v == default

    def compare(self, rng, what, f, params, result, tol, times=2):
        """Calls in several spellings; result(object) gives named arrays."""
        plain = {n: v for n, _, _, v in params}
        want = result(self.ctx.sut(f, **plain))
        for _ in range(times):
            a, kw = self.spell(rng, params)
            got = result(self.ctx.sut(f, *a, **kw))
            left = len(params)-len(a)-len(kw)
            for k in want:
                if isinstance(want[k], np.ndarray):
                    # as accurate as the largest entry allows
                    t = tol*max(np.abs(want[k][np.isfinite(want[k])]).max(initial=0), 1e-300)
                    self.ctx.close(got[k], want[k], t, what, f'{k} of {what} differs with the spelling of the call', args=a, kwargs=kw, plain=plain)
                else:
                    self.ctx.check(got[k] == want[k], what, f'{k} of {what} differs with the spelling of the call: {got[k]!r}, {want[k]!r}', args=a, kwargs=kw, plain=plain)
            self.ctx.seen(what, (str(a), str(kw)), {'call': what, 'positional': len(a), 'keywords': list(kw), 'left out': left})
            if left:
                self.ctx.seen('defaults left out')
            if a:
                self.ctx.seen('by position')

    # -- the calls
    def constants(self, names):
        lam = lambda o: self.c.LaminateProperty([10, 70, -35], o)
        return lambda o: {**{k: getattr(o, k) for k in names}, 'Q_0': np.array(o.Q_0), 'D of a laminate': np.array(lam(o).D), 'z of a laminate': np.array(lam(o).z_position, float), **({'Invariants': np.array(o.Invariants()), 'v21': float(o.v21)} if 'e1' in names else {})}

    def materials(self, rng):
        self.narrow = True
        m = gen.material(rng, gen.choice(rng, list(gen.UNITS)), 0, True)
        if rng.random() < .3:       # as tables in single precision have them
            m.update({k: float(np.float32(v)) for k, v in m.items() if isinstance(v, float)})
        num = self.number
        val = lambda k: 0 if rng.random() < .4 else m[k]
        ps = [(k, num, NO, float(f'{m[k]:.2g}') if rng.random() < .3 else m[k]) for k in ('e1', 'e2', 'v12', 'g12', 'thickness')]
        if ps[2][3]**2*ps[1][3]/ps[0][3] > .9:
            return
        ps += [(k, num, 0, val(k)) for k in ('t1', 'c1', 't2', 'c2', 's')]+[('name', lambda r, v: v, None, 'M')]
        self.compare(rng, 'OrthotropicMaterial', self.c.OrthotropicMaterial, ps, self.constants([p[0] for p in ps]), 1e-12)
        ps = [('e', num, NO, m['e1']), ('v', num, NO, m['v12']), ('g', num, NO, float(int(m['g12'])+1)), ('thickness', num, NO, m['thickness']),
              ('t', num, 0, val('t1')), ('c', num, 0, val('c1')), ('s', num, 0, val('s')), ('name', lambda r, v: v, None, 'M')]
        self.compare(rng, 'IsotropicMaterial', self.c.IsotropicMaterial, ps, self.constants([p[0] for p in ps]), 1e-12)

    def laminates(self, rng):
        self.narrow = False
        s = gen.laminate(rng, allow=True, iso=0, maxply=12)
        mats = {id(m): self.b.material(m) for m in s['mats']}
        plies = [mats[id(m)] for m in s['mats']]
        say = lambda r, v: plies[0] if s['single'] and r.random() < .5 else gen.choice(r, [list, tuple])(plies)
        names = ['A', 'B', 'D', 'ABD', 'xiA', 'xiD', 'z_position', 'Q_layup']
        read = lambda o: {k: np.array(getattr(o, k), float) for k in names}
        T = sum(m['thickness'] for m in s['mats'])

        def result(o):
            r = read(o)
            del r['B']      # zero but for rounding when symmetric
            sc = np.array([1, 1, 1, T, T, T])
            r['ABD'] = r['ABD']/np.outer(sc, sc)
            return r
        angles = [int(x) if x == int(x) else x for x in s['angles']]
        self.compare(rng, 'LaminateProperty', self.c.LaminateProperty, [('stacking', self.row, NO, angles), ('plies', say, NO, plies)], result, 1e-11)
        lp = gen.lp_laminate(rng)
        m = self.b.material(lp['mats'][0])
        given = {k: v for k, v in lp['lp'].items()}
        some = ['A', 'D', 'xiD'] if 'xiA' in given else ['D', 'xiD']

        def saydict(r, v):
            return {k: self.number(r, v[k]) if k == 'T' else self.row(r, v[k]) for k in perm(r, v)}
        self.compare(rng, 'LaminateProperty, parameters', self.c.LaminateProperty, [('stacking', saydict, NO, given), ('plies', lambda r, v: v, NO, m)],
                     lambda o: {k: np.array(getattr(o, k), float) for k in some}, 1e-11)
        # strength
        o = self.b.laminate(s)
        x = gen.loads6(rng, s)
        x = [0 if rng.random() < .3 else v for v in x]
        x = [float(round(v)) if rng.random() < .2 and abs(v) < 2**31 else v for v in x]

        def tables(g):
            r = {'epsilon0': np.array(g.epsilon0(), float)}
            for t in (g.calculate_strain(), g.calculate_stress()):
                for k in t.columns:
                    r[k] = [str(v) for v in t[k]] if k == 'position' else t[k].to_numpy(float)
            # components of a plane belong together
            for p, q in (('epsilonx epsilony gammaxy', 'strain'), ('epsilon1 epsilon2 gamma12', 'strain in ply axes'), ('sigmax sigmay tauxy', 'stress'), ('sigma1 sigma2 tau12', 'stress in ply axes')):
                r[q] = np.array([r.pop(k) for k in p.split()])
            e = r.pop('epsilon0')
            r['epsilon0'], r['kappa0'] = np.r_[e[:3], T*e[3:]], e[3:]+e[:3]/T
            return r
        self.compare(rng, 'LaminateStrength', self.c.LaminateStrength, [('dproperty', lambda r, v: v, NO, o)]+[(k, self.number, 0, v) for k, v in zip(('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy'), x)],
                     tables, 1e-8)

    def plates(self, rng):
        self.narrow = True
        p = Plate.good_plate(self.helper, rng, 2, 5)
        if rng.random() < .3:
            q = dict(p, cons='PINNED', m=gen.choice(rng, [p['m'], 10]), n=gen.choice(rng, [p['n'], 10]))
            p = q if self.helper.usable(q) else p
        o = self.b.laminate(p['lam'])
        N = [0 if v == 0 else v for v in p['N']]
        cons = p['cons']
        default = {e: PIN for e in ('x0', 'xa', 'y0', 'yb')}
        if all(set(v) == set(PIN) for v in oracle.edge_sets(cons).values()):
            cons = default
        f32 = lambda v: float(np.float32(v)) if rng.random() < .2 else v
        ps = [('dproperty', lambda r, v: v, NO, o), ('a', self.number, NO, f32(p['a'])), ('b', self.number, NO, f32(p['b'])), ('constraints', self.edges, default, cons),
              ('Nxx', self.number, 0, N[0]), ('Nyy', self.number, 0, N[1]), ('Nxy', self.number, 0, N[2]),
              ('m', self.size, 10, p['m']), ('n', self.size, 10, p['n'])]

        def result(q):
            K, G = q.calc_K_KG_D()
            return {'K': np.array(K), 'KG': np.array(G), 'loads': [float(v) for v in (q.Nxx, q.Nyy, q.Nxy)], 'size': [q.a, q.b, q.m, q.n]}
        self.compare(rng, 'PlateStructure', self.c.PlateStructure, ps, result, 1e-9)
        q = self.ctx.sut(self.c.PlateStructure, **{k: v for k, _, _, v in ps})
        k = int(gen.choice(rng, [1, 2, 5, 5]))
        with contextlib.redirect_stdout(io.StringIO()):
            self.compare(rng, 'buckling_analysis', q.buckling_analysis, [('silent', lambda r, v: gen.choice(r, [v, bool(v), int(v)]), True, bool(rng.random() < .8)), ('num_eigvalues', self.whole, 5, k)],
                         lambda r: {'1/factors': 1/np.array(r[0]), 'shape': [np.shape(r[0]), np.shape(r[1])]}, 1e-6)
        if rng.random() < .3 and p['m']*p['n'] <= 25:
            def shown(r):
                s = self.surfaces[-1]
                self.plt.close('all')
                return {'x': s[0], 'y': s[1], 'heights': np.array(s[2]), 'surfaces': len(self.surfaces)}

            def draw(*a, **kw):
                self.surfaces.clear()
                q.plot_eigenvalue(*a, **kw)
            nth = int(rng.integers(0, min(2, k, len(q.eigenvalue))))
            self.compare(rng, 'plot_eigenvalue', draw, [('nth', self.whole, 0, nth), ('ngridx', self.whole, 20, gen.choice(rng, [20, 20, 4])), ('ngridy', self.whole, 20, gen.choice(rng, [20, 5]))], shown, 1e-9)

    def whole(self, rng, v):
        return gen.choice(rng, [int(v), np.int64(v)])

    def size(self, rng, v):
        return gen.choice(rng, [int(v), np.int64(v), float(v), np.float64(v)])

    def cards(self, rng):
        from .nastran import parse_pcomp
        self.narrow = False
        n = int(rng.integers(1, 9))
        seq = [gen.angle(rng) for _ in range(n)]
        seq = [int(x) if x == int(x) else x for x in seq]
        per = lambda v: (lambda r, x: gen.choice(r, [list, tuple])([x]*n) if not isinstance(x, (list, tuple)) and r.random() < .5 else x)
        mid = int(rng.integers(1, 99))
        t = gen.choice(rng, [.125, 1, .2, float(rng.random())])

        def read(card):
            head, plies = parse_pcomp(self.ctx, card)
            return {'pid': float(head[1]), 'z0': head[2] and float(head[2]), 'plies': [(float(a), float(b), float(c), d) for a, b, c, d in plies], 'lines': card.count('\n')}
        ps = [('sequence', lambda r, v: self.row(r, v), NO, seq), ('midi', per(0), NO, mid), ('ti', per(0), NO, t), ('pid', self.whole, 1, gen.choice(rng, [1, 1, 77])),
              ('z0', self.offset, '', gen.choice(rng, ['', '', -.5, 0])), ('sout', self.output(n), 'FIBER', gen.choice(rng, ['FIBER', 'FIBER', 'YES', 'NO']))]
        self.compare(rng, 'build_pcomp', self.api.build_pcomp, ps, read, 0)

    def offset(self, rng, v):
        return v if v == '' else gen.choice(rng, [v, float(v), np.float64(v)])

    def output(self, n):
        def say(rng, v):
            if rng.random() < .6:
                return v
            return gen.choice(rng, [list, tuple])({'YES': ['YES']*n, 'NO': ['NO']*n, 'FIBER': ['YES' if k in (0, n-1) else 'NO' for k in range(n)]}[v])
        return say

    def panels(self, rng):
        self.narrow = False
        from .optimize import Panel, problem
        q = problem(rng, 2, 4)
        big = rng.random() < .04    # both sizes left out: each evaluation takes a quarter of a second
        if big:
            q['m'] = q['n'] = 7
        elif rng.random() < .35:
            q.update(zip(perm(rng, ['m', 'n']), (7, int(rng.integers(2, 4)))))
        cons = 'PINNED' if rng.random() < .5 else q['cons']
        weight = rng.random() < .4
        N = [0 if v == 0 else v for v in q['N']]
        if rng.random() < .4 and not big:
            u = float(10**rng.uniform(-4, 3))
            N = [v*u for v in N]
        same = lambda r, v: v
        f = lambda v: float(f'{v:.3g}') if rng.random() < .3 else v
        ps = [('a', self.number, NO, f(q['a'])), ('b', self.number, NO, f(q['b']))]
        if not weight:
            ps.append(('T', self.number, NO, gen.choice(rng, [1., float(rng.uniform(.5, 2))])*q['L']))
        ps += [(k, self.number, NO, q[k]) for k in ('E1', 'E2', 'v12', 'G12')]
        ps += [(k, self.number, 0, v) for k, v in zip(('Nxx', 'Nyy', 'Nxy'), N)]
        ps += [('m', self.size, 7, q['m']), ('n', self.size, 7, q['n'])]
        if weight:
            ps.append(('x0', self.row, [.1, 0., 0.], [.1, 0., 0.] if rng.random() < .6 else [.5*q['L'], .1, 0.]))
        ps += [('panel_constraint', self.edges, 'PINNED', cons), ('options', same, None, {'maxiter': 12} if big else gen.choice(rng, [None, {'maxiter': 60}])), ('tol', same, None, None)]
        if not weight:
            ps += [('plot', same, False, False), ('points_to_plot', same, 30, 30), ('penalty', lambda r, v: gen.choice(r, [v, int(v)]), True, bool(rng.random() < .6))]
        fn, what = (self.opt.minimize_panel_weight, 'minimize_panel_weight') if weight else (self.opt.maximize_buckling_load, 'maximize_buckling_load')
        plain = {n: v for n, _, _, v in ps}

        # what the call means, judged by the reference model: the rest of the optimum is for C21 and C22
        said = {n: v for n, _, _, v in ps}
        ref = Panel(dict(said, N=[said['Nxx'], said['Nyy'], said['Nxy']], cons=said['panel_constraint']))
        best = ref.best(True if weight else bool(said['penalty']))[0]
        for k in range(1 if big else 0, 2 if big else 3):
            a, kw = self.spell(rng, ps) if k else ([], said)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                r = self.ctx.sut(fn, *copy.deepcopy(a), **copy.deepcopy(kw))
            left = len(ps)-len(a)-len(kw)
            if not r['success']:
                return
            x = [float(v) for v in r['x']]
            factor = ref.crit(x[-2:], x[0] if weight else said['T'])
            if factor is None or not np.isfinite(factor) or best is None or not np.isfinite(best):
                continue
            got = dict(args=a, kwargs=kw, plain=said, x=x)
            if weight:
                self.ctx.close(factor/ref.load, 1., 2e-4, what, f'the panel {x} of {what} carries {factor/ref.load} times the load said', **got)
                top = (ref.load/best)**(1/3)/x[0]
            else:
                self.ctx.close(-float(r['fun']), factor, 1e-6*factor, what, f'the value of {what} is not the factor of the panel said', **got)
                top = factor/(best*said['T']**3)
            self.ctx.check(ref.feasible(x[-2:], True if weight else bool(said['penalty'])) > -2e-4, what, f'{what} ends outside the region said', **got)
            self.ctx.check(top > .93, what, f'{what} ends at {top} of the optimum of the problem said', **got)
            self.ctx.seen(what, (str(a), str(kw)), {'call': what, 'positional': len(a), 'keywords': list(kw), 'left out': left, 'of the optimum': top})
            if left:
                self.ctx.seen('defaults left out')
            if a:
                self.ctx.seen('by position')

    def drive(self, rng, i):
        import composipy
        import composipy.nastranapi as api
        import composipy.optimize as opt
        self.c, self.api, self.opt = composipy, api, opt
        with self.taps.mute():
            if rng.random() < .15:
                return self.panels(rng)
            for _ in range(12):
                self.materials(rng)
                self.cards(rng)
            for _ in range(6):
                self.laminates(rng)
            self.plates(rng)
