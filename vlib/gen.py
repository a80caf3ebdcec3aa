"""Workload generators: materials, laminates, loads, plates, boundary conditions.

Everything is a plain spec (dicts and lists); build() turns it into composipy objects and
remembers which spec an object was built from, so that monitors can judge it from the spec
rather than from what the object says about itself.
"""
import copy

import numpy as np

UNITS = {'MPa-mm': (1e3, 1.), 'Pa-m': (1e9, 1e-3), 'psi-in': (145e3, .04), 'GPa-mm': (1., 1.), 'unit': (1e-2, 10.),
         'tiny': (1e-7, 1e-5), 'huge': (1e14, 1e3)}
STD = [0, 15, 30, 45, 60, 75, 90, -15, -30, -45, -60, -75, -90]
FAR = [135, 180, -135, -180, 225, 270, 360, -270, 405, 120, 150, 100, -100, 720]


def choice(rng, seq, p=None):
    return seq[int(rng.choice(len(seq), p=p))]


def material(rng, units='MPa-mm', iso=0.12, allow=False):
    e0, t0 = UNITS[units]
    E1 = float(e0*np.exp(rng.uniform(np.log(5), np.log(300))))
    t = float(t0*choice(rng, [rng.uniform(.05, .4), rng.uniform(.05, 3.), .125, .2, 1., 1.]))
    if rng.random() < .2:
        E1, t = float(f'{E1:.3g}'), float(f'{t:.2g}')
    if rng.random() < iso:
        v = float(rng.uniform(-.3, .49))
        return dict(kind='iso', e=E1, v=v, g=E1/(2*(1+v))*float(choice(rng, [1., rng.uniform(.5, 1.5)])), thickness=t)
    r = float(choice(rng, [rng.uniform(.03, .2), rng.uniform(.2, 1.), 1., rng.uniform(1., 2.)], [.5, .3, .1, .1]))
    v = float(rng.uniform(.0, .45)) if rng.random() < .85 else float(rng.uniform(-.4, .0))
    if v*v*r > .8:
        v = .3
    m = dict(kind='ortho', e1=E1, e2=E1*r, v12=v, g12=E1*float(rng.uniform(.01, .5)), thickness=t)
    if rng.random() < .05:
        m['e1'], m['e2'], m['v12'] = m['e2'], m['e1'], min(.4, m['v12'])
        if m['v12']**2*m['e2']/m['e1'] > .8:
            m['v12'] = .1
    if allow:
        for k in ('t1', 'c1', 't2', 'c2', 's'):
            m[k] = float(E1*rng.uniform(1e-3, 2e-2))
    return m


def angle(rng):
    u = rng.random()
    if u < .55:
        return int(choice(rng, STD))
    if u < .65:
        return int(choice(rng, FAR))
    if u < .75:
        return float(choice(rng, STD))
    if u < .85:
        return float(rng.choice([22.5, -22.5, 67.5, 12.5, .5, 1e-3, 89.999, 45.001, 45.0000001, 90.000001, 29.99999]))
    return float(rng.uniform(-180, 180))


def angles(rng, n=None):
    if n is None:
        n = int(choice(rng, [1, 2, 3, 4, int(rng.integers(5, 9)), int(rng.integers(9, 17)), int(rng.integers(17, 49)), int(rng.integers(49, 150)),
                         int(rng.integers(150, 420))], [.1, .15, .2, .2, .2, .1, .04, .008, .002]))
    kind = choice(rng, ['any', 'sym', 'anti', 'bal', 'cross', 'ud', 'rep', 'oddsym'])
    half = [angle(rng) for _ in range((n+1)//2)]
    if kind == 'any':
        return [angle(rng) for _ in range(n)]
    if kind == 'sym':
        return (half+half[::-1])[:max(n, 1)] if n % 2 == 0 else half+half[::-1]
    if kind == 'anti':
        return half+[-x for x in half[::-1]]
    if kind == 'bal':
        return [y for x in half for y in (x, -x)]
    if kind == 'cross':
        return [int(choice(rng, [0, 90])) for _ in range(n)]
    if kind == 'ud':
        return [angle(rng)]*n
    if kind == 'rep':
        k = max(1, n//3)
        return ([angle(rng) for _ in range(k)]*3)[:n]
    return half+half[-2::-1]


def laminate(rng, units=None, n=None, allow=False, iso=None, single=None, maxply=None):
    units = units or choice(rng, list(UNITS))
    a = angles(rng, n)
    if maxply:
        a = a[:maxply]
    iso = (.12 if not allow else 0) if iso is None else iso
    single = rng.random() < .5 if single is None else single
    if single:
        m = material(rng, units, iso, allow)
        mats = [m]*len(a)
    else:
        pool = [material(rng, units, iso, allow) for _ in range(int(rng.integers(1, 4)))]
        if rng.random() < .25:      # sandwich-like core
            pool[-1] = dict(pool[-1], thickness=pool[0]['thickness']*float(rng.uniform(5, 60)))
            f = float(rng.uniform(1e-3, .3))
            for k in ('e', 'g', 'e1', 'e2', 'g12'):
                if k in pool[-1]:
                    pool[-1][k] *= f
        if rng.random() < .15:      # nearly the same ply twice
            twin = dict(choice(rng, pool))
            k = choice(rng, [k for k in twin if k not in ('kind', 'v', 'v12') and twin[k]])
            twin[k] *= 1+float(choice(rng, [1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3]))
            pool.append(twin)
        mats = [choice(rng, pool) for _ in a]
        if rng.random() < .35:      # symmetric in materials too
            mats = [mats[min(i, len(a)-1-i)] for i in range(len(a))]
    form = choice(rng, ['list', 'tuple', 'array'], [.7, .15, .15])
    return dict(angles=a, mats=mats, single=single, form=form, units=units)


def feasible_xi(rng):
    """Lamination parameters (4) of a random angle distribution."""
    k = int(rng.integers(1, 6))
    th = np.radians(rng.uniform(-90, 90, k)) if rng.random() < .6 else np.radians(rng.choice([0, 45, -45, 90, 30], k))
    w = rng.dirichlet(np.ones(k))
    return [float(w @ np.cos(2*th)), float(w @ np.sin(2*th)), float(w @ np.cos(4*th)), float(w @ np.sin(4*th))]


def lp_laminate(rng, units=None, with_a=None):
    units = units or choice(rng, list(UNITS))
    m = material(rng, units, 0)
    lp = dict(xiD=feasible_xi(rng), T=float(UNITS[units][1]*rng.uniform(.2, 20)))
    if rng.random() < .15:
        lp['T'] = 1.0
    if with_a or (with_a is None and rng.random() < .6):
        lp['xiA'] = feasible_xi(rng)
    if rng.random() < .2:
        lp['xiB'] = [0., 0., 0., 0.]
    if rng.random() < .3:
        lp['xiD'] = [lp['xiD'][0], 0., lp['xiD'][2], 0.]
    return dict(lp=lp, mats=[m], lpform=choice(rng, ['list', 'tuple', 'array']), units=units)


def loads6(rng, spec):
    """Membrane forces and moments giving strains of the order of 1e-3."""
    from . import oracle
    sa, sb, sd = oracle.abd_scale(spec)
    T = sd*12/sa
    T = float(np.sqrt(T))
    kind = choice(rng, ['all', 'one', 'mem', 'bend', 'some', 'zero'], [.35, .25, .15, .15, .08, .02])
    x = rng.uniform(-1, 1, 6)*np.array([1, 1, 1, T/6, T/6, T/6])*sa*1e-3
    if kind == 'one':
        k = rng.integers(6)
        x = np.where(np.arange(6) == k, x, 0)
    elif kind == 'mem':
        x[3:] = 0
    elif kind == 'bend':
        x[:3] = 0
    elif kind == 'some':
        x *= rng.random(6) < .5
    elif kind == 'zero':
        x *= 0
    if rng.random() < .15:
        x *= 10**rng.uniform(-9, 6)
    out = [float(v) for v in x]
    if rng.random() < .15 and kind != 'zero' and max(map(abs, out)) < 2**52:
        out = [int(np.sign(v)*np.ceil(abs(v))) if v else 0 for v in out]
    return out


# ------------------------------------------------------------------ plates
def constraints(rng, restrained=True):
    """Boundary conditions in one of the documented notations."""
    u = rng.random()
    names = ['free', 'pinned', 'clamped', 'simply_supported', 'fixed']
    if u < .15:
        return 'PINNED'
    if u < .3:
        return 'CLAMPED'
    while True:
        if u < .7:
            c = {e: choice(rng, names, [.25, .3, .25, .1, .1]) for e in ('x0', 'xa', 'y0', 'yb')}
            if rng.random() < .3:
                c = {e: choice(rng, [v, v.upper(), v.capitalize()]) for e, v in c.items()}
        else:
            c = {}
            for e in ('x0', 'xa', 'y0', 'yb'):
                full = ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ']
                k = choice(rng, ['free', 'tz', 'pin', 'clamp', 'rnd', 'wclamp'], [.15, .15, .2, .15, .25, .1])
                c[e] = {'free': [], 'tz': ['TZ'], 'pin': full[:3], 'clamp': full, 'wclamp': ['TZ', 'RZ'],
                        'rnd': [d for d in full if rng.random() < .5]}[k]
                if rng.random() < .2:
                    c[e] = c[e][::-1]
                if rng.random() < .1:
                    c[e] = tuple(c[e])
            if u > .9:          # some edges by name, some by list
                for e in c:
                    if rng.random() < .5:
                        v = choice(rng, names)
                        c[e] = choice(rng, [v, v.upper(), v.capitalize()])
        if not restrained or w_restrained(c):
            return c


def w_restrained(c):
    """w has no rigid-body mode."""
    from . import oracle
    s = oracle.edge_sets(c)
    t = {e: 'TZ' in s[e] for e in s}
    r = {e: 'RZ' in s[e] for e in s}
    nx = int(t['x0'])+int(t['xa'])
    ny = int(t['y0'])+int(t['yb'])
    if any(t[e] and r[e] for e in s) or nx+ny >= 3:
        return True
    if nx == 2 or ny == 2:
        return True
    return nx == 1 and ny == 1          # w = c x y twists, so it is not rigid


def plate(rng, lam, m=None, n=None, cons=None, restrained=True, comp=True):
    t0 = UNITS[lam['units']][1]
    a = float(t0*np.exp(rng.uniform(np.log(60), np.log(900))))
    b = float(a*choice(rng, [1., rng.uniform(.3, 3.), rng.uniform(.7, 1.4), .5, 2.]))
    if rng.random() < .06:
        b = float(a*10**rng.uniform(-1, 1))
    if rng.random() < .06:
        f = float(10**rng.uniform(-2, 2))
        a, b = a*f, b*f
    if rng.random() < .25:
        a, b = float(f'{a:.2g}'), float(f'{b:.2g}')
    kind = choice(rng, ['x', 'y', 'xy', 's', 'all', 'mixed'], [.2, .15, .2, .15, .2, .1])
    N = {'x': (-1, 0, 0), 'y': (0, -1, 0), 'xy': (-1, -float(rng.uniform(.1, 2)), 0), 's': (0, 0, float(choice(rng, [1, -1]))),
         'all': (-1, -float(rng.uniform(0, 1)), float(rng.uniform(-1, 1))),
         'mixed': (float(rng.uniform(-1, 1)), float(rng.uniform(-1, 1)), float(rng.uniform(-1, 1)))}[kind]
    if comp:
        scale = float(choice(rng, [1., 1., 10**rng.uniform(-4, 4)]))
        N = tuple(float(x*scale) if scale != 1. else x for x in N)
    # ARPACK resolves eigenvalues down to about 1e-26 of one: keep load factors below 1e12 or so
    from . import oracle
    f = oracle.abd_scale(lam)[2]/min(a, b)**2/max(max(map(abs, N)), 1e-300)
    if comp and not 1e-9 < f < 1e9:
        N = tuple(float(x*f) for x in N)
    m = int(rng.integers(2, 6)) if m is None else m
    n = int(rng.integers(2, 6)) if n is None else n
    return dict(lam=lam, a=a, b=b, N=list(N), m=m, n=n,
                cons=constraints(rng, restrained) if cons is None else cons)


# ------------------------------------------------------------------ siblings
def sibling_laminate(rng, spec):
    """A spec differing from `spec` in one respect (catches caches keyed too coarsely)."""
    s = copy.deepcopy(spec)
    k = int(rng.integers(9))
    n = len(s['angles'])
    if k == 0:
        s['angles'] = s['angles'][::-1]
        s['mats'] = s['mats'][::-1]
    elif k == 1:
        i = int(rng.integers(n))
        s['angles'][i] = s['angles'][i]+choice(rng, [90, 45, -30, 1e-3])
    elif k == 2:
        s['angles'] = [-x for x in s['angles']]
    elif k == 3:
        f = float(rng.uniform(.5, 2))
        s['mats'] = [dict(m, thickness=m['thickness']*f) for m in s['mats']]
    elif k == 4:
        f = float(rng.uniform(.5, 2))
        s['mats'] = [dict(m, **{('g' if m['kind'] == 'iso' else 'g12'): m['g' if m['kind'] == 'iso' else 'g12']*f})
                     for m in s['mats']]
    elif k == 5:
        s['mats'] = [dict(m, **({'v': .2*m['v']} if m['kind'] == 'iso' else {'v12': .2*m['v12']})) for m in s['mats']]
    elif k == 6:
        s['angles'] = s['angles']+[angle(rng)]
        s['mats'] = s['mats']+[s['mats'][-1]]
    elif k == 7 and n > 1:
        i = int(rng.integers(n-1))
        s['angles'][i], s['angles'][i+1] = s['angles'][i+1], s['angles'][i]
    else:
        f = float(rng.uniform(.5, 1.))
        s['mats'] = [dict(m, **({'e': m['e']*f} if m['kind'] == 'iso' else {'e2': m['e2']*f})) for m in s['mats']]
    if s['single'] and any(m != s['mats'][0] for m in s['mats']):
        s['single'] = False
    return s


def sibling_plate(rng, p):
    q = dict(p, N=list(p['N']))
    k = int(rng.integers(8))
    if k == 0:
        q['a'] = p['a']*float(rng.uniform(.6, 1.6))
    elif k == 1:
        q['b'] = p['b']*float(rng.uniform(.6, 1.6))
    elif k == 2:
        i = int(rng.integers(3))
        q['N'][i] = p['N'][i] + float(rng.uniform(-1, 1))*max(abs(x) for x in p['N'])
        if not any(q['N']):
            q['N'][0] = -1.
    elif k == 3:
        q['N'] = [x*float(2.) for x in p['N']]
    elif k == 4:
        q['m'], q['n'] = p['n'], p['m']
    elif k == 5:
        q['cons'] = constraints(rng)
    elif k == 6 and 'angles' in p['lam']:
        q['lam'] = sibling_laminate(rng, p['lam'])
    else:
        q['m'] = p['m']+1 if p['m'] < 6 else p['m']-1
    return q


# ------------------------------------------------------------------ building
class Builder:
    def __init__(self, ctx):
        import composipy
        self.c = composipy
        self.ctx = ctx
        self.reg = {}            # id(obj) -> (obj, spec)

    def remember(self, obj, spec):
        self.reg[id(obj)] = (obj, spec)
        return obj

    def spec_of(self, obj):
        r = self.reg.get(id(obj))
        return r[1] if r is not None and r[0] is obj else None

    def material(self, m):
        kw = {k: v for k, v in m.items() if k != 'kind'}
        cls = self.c.IsotropicMaterial if m['kind'] == 'iso' else self.c.OrthotropicMaterial
        return self.remember(self.ctx.sut(cls, **kw), m)

    def laminate(self, s):
        if 'lp' in s:
            st = {k: v for k, v in s['lp'].items()}
            for k in ('xiA', 'xiB', 'xiD'):
                if k in st:
                    st[k] = {'list': list, 'tuple': tuple, 'array': np.array}[s.get('lpform', 'list')](st[k])
            return self.remember(self.ctx.sut(self.c.LaminateProperty, st, self.material(s['mats'][0])), s)
        st = {'list': list, 'tuple': tuple, 'array': np.array}[s.get('form', 'list')](s['angles'])
        if s['single']:
            pl = self.material(s['mats'][0])
        else:
            made = {}
            pl = []
            for m in s['mats']:
                if id(m) not in made:
                    made[id(m)] = self.material(m)
                pl.append(made[id(m)])
        return self.remember(self.ctx.sut(self.c.LaminateProperty, st, pl), s)

    def strength(self, lam, x):
        kw = dict(zip(('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy'), x))
        if sum(1 for v in x if v == 0):
            kw = {k: v for k, v in kw.items() if v != 0}
        return self.remember(self.ctx.sut(self.c.LaminateStrength, lam, **kw), dict(lam=self.spec_of(lam), loads=list(x)))

    def plate(self, p, lam=None):
        lam = lam if lam is not None else self.laminate(p['lam'])
        kw = {k: v for k, v in zip(('Nxx', 'Nyy', 'Nxy'), p['N']) if v}
        kw.update(m=p['m'], n=p['n'])
        if not (p['cons'] == 'PINNED' and p.get('default_cons')):
            kw['constraints'] = copy.deepcopy(p['cons'])
        return self.remember(self.ctx.sut(self.c.PlateStructure, lam, p['a'], p['b'], **kw), p)
