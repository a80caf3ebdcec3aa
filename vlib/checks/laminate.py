"""C01-C08: materials, laminates, lamination parameters, object histories."""
import copy

import numpy as np

from .. import gen, oracle
from ..core import rnd
from .base import Check, arr, perm

ORTHO = ['e1', 'e2', 'v12', 'g12', 'thickness']
ISO = ['e', 'v', 'g', 'thickness']
OALLOW = ['t1', 'c1', 't2', 'c2', 's']
IALLOW = ['t', 'c', 's']


def sib_material(rng, m):
    k = gen.choice(rng, [k for k in m if k != 'kind'])
    f = float(rng.uniform(.3, .95))
    return dict(m, **{k: m[k]*f})


def key(m):
    return tuple(sorted((k, str(v)) for k, v in m.items()))


# ------------------------------------------------------------------------------- C01
class C01(Check):
    """Ply stiffness, minor Poisson ratio and stiffness invariants against the compliance."""

    def subscribe(self, taps):
        for c in ('OrthotropicMaterial', 'IsotropicMaterial'):
            taps.on(c+'.Q_0', self.on_q)
        taps.on('OrthotropicMaterial.v21', self.on_v21)
        taps.on('OrthotropicMaterial.Invariants', self.on_inv)

    def on_q(self, ev):
        m = self.b.spec_of(ev.obj)
        if m is None:
            return
        q = arr(self.ctx, ev.result, (3, 3), 'Q_0')
        want = oracle.ply_Q(m)
        tol = 1e-11*np.sqrt(np.outer(np.diag(want), np.diag(want)))
        self.ctx.close(q, want, tol, 'Q0', 'ply stiffness differs from the inverse of the compliance', material=m)
        self.ctx.seen('Q_0', key(m), {'material': m, 'Q_0': q})

    def on_v21(self, ev):
        m = self.b.spec_of(ev.obj)
        if m is None:
            return
        self.ctx.close(ev.result, m['v12']*m['e2']/m['e1'], 1e-12*abs(m['v12'])*m['e2']/m['e1'], 'v21',
                       'v21/e2 != v12/e1', material=m)
        self.ctx.seen('v21', key(m))

    def on_inv(self, ev):
        m = self.b.spec_of(ev.obj)
        if m is None:
            return
        u = arr(self.ctx, ev.result, (5,), 'Invariants()')
        want = oracle.stiffness_invariants(m)
        self.ctx.close(u, want, 1e-11*max(map(abs, want)), 'invariants', 'stiffness invariants', material=m)
        # what they are for: the rotated stiffness at any angle
        for t in (0., 17., 45., 90.):
            q = oracle.q_bar(m, t)
            c2, c4 = np.cos(np.radians(2*t)), np.cos(np.radians(4*t))
            self.ctx.close(u[0]+u[1]*c2+u[2]*c4, q[0, 0], 1e-10*abs(q).max(), 'invariants-rotation', 'rotated Q11', material=m)
        self.ctx.seen('Invariants', key(m))

    def drive(self, rng, i):
        units = gen.choice(rng, list(gen.UNITS))
        ms = []
        for _ in range(int(rng.integers(1, 4))):
            m = gen.material(rng, units, iso=.35, allow=rng.random() < .5)
            u = rng.random()
            if u < .15:
                k = 'v' if m['kind'] == 'iso' else 'v12'
                m[k] = float(gen.choice(rng, [0., .5, -.5, .49999, -.3]))
                if m['kind'] == 'ortho' and m['v12']**2*m['e2']/m['e1'] > .8:
                    m['e2'] = m['e1']
            elif u < .25 and m['kind'] == 'ortho':
                m['e1'], m['e2'], m['g12'] = (int(np.ceil(m[k])) for k in ('e1', 'e2', 'g12'))
            elif u < .32 and m['kind'] == 'ortho':
                m['e2'] = m['e1']
                if rng.random() < .5:
                    m['g12'] = m['e1']/(2*(1+m['v12']))
            ms += [m, sib_material(rng, m)]
            if m['kind'] == 'ortho' and rng.random() < .4:
                ms.append(dict(m, e1=m['e2'], e2=m['e1']) if m['v12']**2*m['e1']/m['e2'] < .9 else dict(m))
        objs = []
        for m in ms:
            if m['kind'] == 'iso':
                v = m['v']
                if v*v > .9:
                    continue
            if rng.random() < .3:   # positional
                import composipy
                names = (ORTHO+OALLOW) if m['kind'] == 'ortho' else (ISO+IALLOW)
                cls = composipy.OrthotropicMaterial if m['kind'] == 'ortho' else composipy.IsotropicMaterial
                args = [m[k] for k in names if k in m]
                objs.append(self.b.remember(self.ctx.sut(cls, *args), m))
            else:
                objs.append(self.b.material(m))
        for _ in range(2):
            for o in perm(rng, objs):
                acts = [lambda: o.Q_0]
                if self.b.spec_of(o)['kind'] == 'ortho':
                    acts += [lambda: o.v21, o.Invariants]
                for f in perm(rng, acts):
                    self.ctx.sut(f)


# ------------------------------------------------------------------------------- C02
BAD = ['abc', None, float('nan'), [1., 2.], {}, 1j, '', '1,5', object, np.nan]


class C02(Check):
    """Constructors: reject what is outside the domain, echo what is inside, read-only."""

    def subscribe(self, taps):
        import composipy
        self.c = composipy

    def build(self, cls, names, vals, positional):
        if positional:
            return cls, [vals[k] for k in names], {}
        return cls, [], dict(vals)

    def echo(self, cls, names, vals, positional):
        f, a, k = self.build(cls, names, vals, positional)
        o = self.ctx.sut(f, *a, **k)
        for n in names:
            if n in vals:
                g = self.ctx.sut(getattr, o, n)
                self.ctx.check(g == vals[n], 'echo', f'{cls.__name__}.{n} reads {g!r}, was given {vals[n]!r}', given=vals)
        self.ctx.seen('echo', (cls.__name__, rnd([vals[n] for n in names if n in vals])), {'class': cls.__name__, 'given': vals})
        return o

    def rejected(self, rng, cls, names, vals, bad):
        v = dict(vals)
        v.update(bad)
        f, a, k = self.build(cls, names, v, rng.random() < .3 and all(n in v for n in names))
        self.ctx.sut_rejects(ValueError, f, *a, **k)
        self.ctx.seen('rejected', (cls.__name__, tuple((n, repr(x)) for n, x in bad.items())), {'class': cls.__name__, 'bad': repr(bad)})

    def readonly(self, rng, o, names):
        n = gen.choice(rng, names)
        before = getattr(o, n)
        try:
            setattr(o, n, 123.25)
        except AttributeError:
            pass
        except Exception as e:
            self.ctx.fail('readonly-exc', f'setting {n} raised {type(e).__name__}')
        else:
            self.ctx.fail('readonly', f'{type(o).__name__}.{n} can be reassigned')
        self.ctx.check(getattr(o, n) is before or getattr(o, n) == before, 'readonly', f'{n} changed')
        self.ctx.seen('readonly', (type(o).__name__, n))

    def material(self, rng, kind):
        cls = self.c.OrthotropicMaterial if kind == 'ortho' else self.c.IsotropicMaterial
        core, al = (ORTHO, OALLOW) if kind == 'ortho' else (ISO, IALLOW)
        names = core+al
        m = gen.material(rng, gen.choice(rng, list(gen.UNITS)), iso=0 if kind == 'ortho' else 1, allow=True)
        vals = {k: m[k] for k in core}
        vals.update({k: float(rng.uniform(1, 1e4)) for k in al})
        if rng.random() < .3:
            vals[gen.choice(rng, al)] = 0
        if rng.random() < .1:
            vals[gen.choice(rng, al)] = gen.choice(rng, [float('inf'), np.inf*1e0, np.float64('inf')])      # no limit
        if rng.random() < .3:
            for k in core[:2]+core[3:4]:
                if k not in ('v', 'v12'):
                    vals[k] = int(np.ceil(vals[k]))
        pois = 'v12' if kind == 'ortho' else 'v'
        if rng.random() < .3:
            vals[pois] = gen.choice(rng, [.5, -.5, 0, 0., np.float64(.31), np.nextafter(.5, 0)])
        if rng.random() < .2:
            vals[gen.choice(rng, ['thickness', 'g12' if kind == 'ortho' else 'g'])] = gen.choice(rng, [0, 0., 1e-300, 1e300])
        pos = rng.random() < .4
        o = self.echo(cls, names, vals, pos)
        few = {k: vals[k] for k in core}
        o2 = self.echo(cls, core, few, pos)
        for k in al:
            self.ctx.check(getattr(o2, k) == 0, 'default', f'default {k} is {getattr(o2, k)!r}')
        nm = gen.choice(rng, ['P1', 'carbon UD', '', 'ply_1'])
        o3 = self.ctx.sut(cls, **vals, name=nm)
        self.ctx.check(o3.name == nm, 'echo', f'name reads {o3.name!r}, given {nm!r}')
        self.ctx.check(o2.name == o2.name and isinstance(o2.name, str), 'name', 'default name')
        for _ in range(2):
            self.readonly(rng, gen.choice(rng, [o, o2]), names)
        # each field, one bad value at a time
        for k in names:
            u = rng.random()
            if u < .45:
                bad = gen.choice(rng, BAD)
            elif k == pois:
                bad = gen.choice(rng, [.5000001, -.5000001, 1, -1, np.nextafter(.5, 1), np.nextafter(-.5, -1), 2., -3, 1e9,
                                       float('inf'), -float('inf')])
            else:
                bad = gen.choice(rng, [-1, -1., -1e-12, -1e9, -5e-324, -float('inf'), -.5, np.float64(-3.)])
            self.rejected(rng, cls, names if rng.random() < .5 else core if k in core else names,
                          vals if k in al or rng.random() < .7 else few, {k: bad})
        # still usable, still what they were
        for k in names:
            self.ctx.check(getattr(o, k) == vals[k], 'echo', f'{k} changed after later constructions')

    def plate(self, rng):
        b = self.b
        P = self.c.PlateStructure
        lam = b.laminate(gen.laminate(rng) if rng.random() < .7 else gen.lp_laminate(rng))
        names = ['a', 'b', 'Nxx', 'Nyy', 'Nxy', 'm', 'n']
        vals = {'a': float(rng.uniform(1, 900)), 'b': gen.choice(rng, [300, float(rng.uniform(1, 900))]),
                'Nxx': gen.choice(rng, [-1, 0, 2.5, float(rng.normal()), -1e5]), 'Nyy': float(rng.normal()),
                'Nxy': gen.choice(rng, [0., -1e-9, 7]), 'm': int(gen.choice(rng, [rng.integers(1, 27), rng.integers(27, 200)], [.8, .2])), 'n': int(gen.choice(rng, [rng.integers(1, 27), rng.integers(27, 200)], [.8, .2]))}
        cons = gen.constraints(rng, False)
        given = dict(vals)
        if rng.random() < .4:
            given['m'] = gen.choice(rng, [float(vals['m']), np.int64(vals['m']), np.float64(vals['m'])])
        o = self.ctx.sut(P, lam, constraints=cons, **given)
        for k in names:
            self.ctx.check(getattr(o, k) == vals[k], 'echo', f'PlateStructure.{k} reads {getattr(o, k)!r}, given {given[k]!r}')
        self.ctx.check(isinstance(o.m, (int, np.integer)) and isinstance(o.n, (int, np.integer)), 'echo', 'm, n are not integers')
        self.ctx.check(o.dproperty is lam, 'echo', 'dproperty is another object')
        self.ctx.check(o.constraints == cons, 'echo', 'constraints differ', got=o.constraints, given=cons)
        self.ctx.seen('echo', ('plate', rnd([vals[k] for k in names])))
        d = self.ctx.sut(P, lam, vals['a'], vals['b'])
        for k, v in (('Nxx', 0), ('Nyy', 0), ('Nxy', 0), ('m', 10), ('n', 10)):
            self.ctx.check(getattr(d, k) == v, 'default', f'default {k} is {getattr(d, k)!r}')
        self.readonly(rng, o, names+['constraints', 'dproperty'])

        def no(**bad):
            kw = dict(dproperty=lam, constraints=cons, **vals)
            kw.update(bad)
            self.ctx.sut_rejects(ValueError, P, **kw)
            self.ctx.seen('rejected', ('plate', tuple((n, repr(x)) for n, x in bad.items() if n != 'dproperty')))
        for k in ('a', 'b'):
            no(**{k: gen.choice(rng, BAD+[-1, -1e-9, -float('inf'), -300.])})
        for k in ('Nxx', 'Nyy', 'Nxy'):
            no(**{k: gen.choice(rng, BAD)})
        for k in ('m', 'n'):
            no(**{k: gen.choice(rng, BAD+[0, -1, 2.5, .999999, -10, 1.5, 0., float('inf'), 10.000001])})
        no(dproperty=gen.choice(rng, [None, 'lam', 5, [0, 90], lam.A, b.material(gen.material(rng)), {}]))
        no(**{k: gen.choice(rng, BAD) for k in perm(rng, names)[:2]})

    def laminate(self, rng):
        L = self.c.LaminateProperty
        m = self.b.material(gen.material(rng, iso=0))
        n = int(rng.integers(1, 30))
        ang = gen.angles(rng, n)
        n = len(ang)
        for k in {0, 1, max(0, n-1), n+1, 2*n}-{n}:
            self.ctx.sut_rejects(ValueError, L, gen.choice(rng, [list, tuple, np.array])(ang), gen.choice(rng, [list, tuple])([m]*k))
            self.ctx.seen('rejected', ('plies', n, k))
        o = self.ctx.sut(L, ang, [m]*n)
        self.ctx.check(list(o.stacking) == ang, 'echo', 'stacking differs')
        xi = gen.feasible_xi(rng)
        full = {'xiA': xi, 'xiB': [0]*4, 'xiD': xi, 'T': 1.2}
        for miss in ('xiD', 'T'):
            keep = {k: v for k, v in full.items() if k != miss and (k in ('xiD', 'T') or rng.random() < .5)}
            self.ctx.sut_rejects(KeyError, L, keep, m)
            self.ctx.seen('rejected', ('lp', tuple(keep)))
        self.ctx.sut_rejects(KeyError, L, {}, m)
        self.ctx.sut(L, {k: v for k, v in full.items() if k in ('xiD', 'T') or rng.random() < .5}, m)

    def drive(self, rng, i):
        self.material(rng, 'ortho')
        self.material(rng, 'iso')
        self.plate(rng)
        self.laminate(rng)


# ------------------------------------------------------------------------------- C03
class C03(Check):
    """Equality of materials and laminates."""

    def eq(self, x, y, want, what):
        for p, q in ((x, y), (y, x)):
            r = self.ctx.sut(lambda: p == q)
            self.ctx.check(bool(r) is want, 'eq', f'{what}: == gives {r!r}')
            r = self.ctx.sut(lambda: p != q)
            self.ctx.check(bool(r) is (not want), 'ne', f'{what}: != gives {r!r}')
        self.ctx.seen('equal' if want else 'different', what)

    def other(self, rng, v):
        return gen.choice(rng, [float(np.nextafter(v, 1e30)), float(np.nextafter(v, -1e30)) if v else .25, v*1.5+1e-3, v*(1+1e-9)+1e-300])

    def materials(self, rng):
        import composipy
        kind = gen.choice(rng, ['ortho', 'iso'])
        cls = composipy.OrthotropicMaterial if kind == 'ortho' else composipy.IsotropicMaterial
        names = (ORTHO+OALLOW) if kind == 'ortho' else (ISO+IALLOW)
        m = gen.material(rng, 'MPa-mm', iso=0 if kind == 'ortho' else 1, allow=True)
        base = {k: m.get(k, float(rng.uniform(10, 99))) for k in names}
        if rng.random() < .2:
            for k in names[:1]+names[5:]:
                base[k] = float(round(base[k]))
        if rng.random() < .3:
            for k in (OALLOW if kind == 'ortho' else IALLOW):
                base[k] = 0.
        x = self.ctx.sut(cls, **base)
        self.eq(x, x, True, ('self', kind))
        y = self.ctx.sut(cls, **{k: (int(v) if v == int(v) and rng.random() < .5 else v) for k, v in base.items()},
                         name=gen.choice(rng, [None, 'A', 'B']))
        if rng.random() < .5:
            y.Q_0
        self.eq(x, y, True, ('same', kind, rnd(list(base.values()))))
        for k in names:
            v = self.other(rng, base[k])
            if k in ('v', 'v12'):
                v = v if abs(v) <= .5 and v != base[k] else base[k]/2+.01
            z = self.ctx.sut(cls, **dict(base, **{k: v}))
            if rng.random() < .3:
                x.Q_0, z.Q_0
            self.eq(x, z, False, (kind, k, rnd(v, 16)))
        return base

    def touch(self, rng, o):
        for n in perm(rng, ['A', 'B', 'D', 'ABD', 'Q_layup', 'T_layup', 'z_position', 'xiA', 'xiD'])[:int(rng.integers(0, 4))]:
            self.ctx.sut(getattr, o, n)

    def laminates(self, rng):
        iso = rng.random() < .2
        s = gen.laminate(rng, allow=not iso, iso=1 if iso else 0, units='MPa-mm')
        x = self.b.laminate(s)
        self.eq(x, x, True, 'laminate itself')
        t = copy.deepcopy(s)
        t['form'] = gen.choice(rng, ['list', 'tuple', 'array'])
        t['single'] = t['single'] and rng.random() < .5
        y = self.b.laminate(t)
        self.touch(rng, gen.choice(rng, [x, y]))
        self.eq(x, y, True, ('laminate', rnd(s['angles']), s['form'], t['form'], t['single']))
        n = len(s['angles'])
        i = int(rng.integers(n))
        alts = {}
        t = copy.deepcopy(s)
        t['angles'][i] = gen.choice(rng, [t['angles'][i]+90, t['angles'][i]+1e-6, -t['angles'][i] if t['angles'][i] else 45, t['angles'][i]+180])
        alts['angle'] = t
        for _ in range(2):
            t = copy.deepcopy(s)
            mk = gen.choice(rng, ISO if iso else ORTHO+OALLOW)
            v = self.other(rng, t['mats'][i][mk])
            v = t['mats'][i][mk]*.5+.01 if mk in ('v', 'v12') and abs(v) > .5 else v
            if v != t['mats'][i][mk]:
                t['mats'][i] = dict(t['mats'][i], **{mk: v})
                t['single'] = False
                alts['ply '+mk] = t
        t = copy.deepcopy(s)
        t['angles'].append(t['angles'][-1])
        t['mats'] = t['mats']+[t['mats'][-1]]
        alts['one more'] = t
        if n > 1:
            t = copy.deepcopy(s)
            t['angles'], t['mats'] = t['angles'][:-1], t['mats'][:-1]
            alts['one less'] = t
            t = copy.deepcopy(s)
            t['angles'], t['mats'] = t['angles'][::-1], t['mats'][::-1]
            if t['angles'] != s['angles'] or t['mats'] != s['mats']:
                alts['reversed'] = t
        for k, t in alts.items():
            z = self.b.laminate(t)
            self.touch(rng, z)
            self.eq(x, z, False, ('laminate', k, rnd(t['angles'])))
        lp = gen.lp_laminate(rng, 'MPa-mm')
        p = self.b.laminate(lp)
        self.eq(p, p, True, 'lp itself')
        self.eq(p, x, False, 'lp and stacking')
        q = dict(copy.deepcopy(lp), lpform=gen.choice(rng, ['list', 'tuple', 'array']))
        qq = self.b.laminate(q)
        self.touch_lp(rng, p)
        self.eq(p, qq, True, ('lp', rnd(lp['lp']['xiD'])))
        alts = []
        for kk in [k for k in ('xiA', 'xiD') if k in lp['lp']]:
            t = copy.deepcopy(lp)
            j = int(rng.integers(4))
            t['lp'][kk][j] = float(np.nextafter(t['lp'][kk][j], 2)) if rng.random() < .4 else t['lp'][kk][j]*.5+.01
            alts.append(((kk, j), t))
        if rng.random() < .3:
            t = copy.deepcopy(lp)
            old = t['lp'].get('xiB', [0.]*4)
            t['lp']['xiB'] = [float(x) for x in old]
            t['lp']['xiB'][int(rng.integers(4))] += .125
            alts.append(('xiB', t))
        t = copy.deepcopy(lp)
        t['lp']['T'] = self.other(rng, t['lp']['T'])
        alts.append(('T', t))
        t = copy.deepcopy(lp)
        if 'xiA' in t['lp']:
            del t['lp']['xiA']
        else:
            t['lp']['xiA'] = gen.feasible_xi(rng)
        alts.append(('with/without xiA', t))
        t = copy.deepcopy(lp)
        t['mats'] = [dict(t['mats'][0], g12=t['mats'][0]['g12']*1.01)]
        alts.append(('material', t))
        for k, t in alts:
            self.eq(p, self.b.laminate(t), False, ('lp', k, rnd(t['lp']['T'])))
        for o in (None, 5, 'x', [0, 90]):
            for z in (x, p):
                self.ctx.check(not self.ctx.sut(lambda: z == o), 'eq-other', f'laminate equals {o!r}')

    def touch_lp(self, rng, o):
        for n in perm(rng, ['A', 'B', 'D', 'ABD', 'xiD'])[:int(rng.integers(0, 4))]:
            self.ctx.sut(getattr, o, n)

    def drive(self, rng, i):
        self.materials(rng)
        self.laminates(rng)


# ------------------------------------------------------------------------------- monitors
class Judge(Check):
    """Oracles for everything a laminate reports; subclasses choose what to subscribe."""

    def spec(self, ev):
        return self.b.spec_of(ev.obj)

    def sig(self, s):
        if 'lp' in s:
            return ('lp', rnd(s['lp']['xiD']), s['lp']['T'], 'xiA' in s['lp'])
        return (tuple(map(str, s['angles'])), hash(tuple(m['thickness'] for m in s['mats'])), s['form'])

    def on_matrix(self, ev):
        s = self.spec(ev)
        if s is None:
            return
        name = ev.name.split('.')[1]
        a, b, d = oracle.clt(s)
        sa, sb, sd = oracle.abd_scale(s)
        if name == 'ABD':
            want = np.block([[a, b], [b, d]])
            one = np.ones((3, 3))
            tol = 1e-10*np.block([[sa*one, sb*one], [sb*one, sd*one]])
        else:
            want, tol = {'A': (a, sa), 'B': (b, sb), 'D': (d, sd)}[name]
            tol = tol*1e-10
        got = arr(self.ctx, ev.result, want.shape, name)
        self.ctx.close(got, want, tol, name, f'{name} differs from the through-thickness integral', laminate=s)
        self.ctx.seen(name, self.sig(s), {'angles': s.get('angles'), 'lp': s.get('lp'), name: got})

    def on_z(self, ev):
        s = self.spec(ev)
        if s is None or 'lp' in s:
            return
        want = oracle.z_faces(s)
        T = want[-1]-want[0]
        got = arr(self.ctx, ev.result, want.shape, 'z_position')
        self.ctx.close(got, want, 1e-11*T, 'z', 'ply interfaces', laminate=s)
        self.ctx.seen('z_position', self.sig(s))

    def on_Q(self, ev):
        s = self.spec(ev)
        if s is None or 'lp' in s:
            return
        self.ctx.check(len(ev.result) == len(s['angles']), 'Q-count', f'{len(ev.result)} ply stiffnesses', laminate=s)
        for k, (t, m) in enumerate(zip(s['angles'], s['mats'])):
            got = arr(self.ctx, ev.result[k], (3, 3), 'Q_layup')
            want = oracle.q_bar(m, t)
            self.ctx.close(got, want, 1e-10*abs(want).max(), 'Q_layup', f'ply {k+1} at {t} deg', laminate=s)
            self.ctx.seen('ply stiffness', (str(t), round(m['thickness'], 6), round(np.log(abs(want).max()), 5)))

    def on_T(self, ev):
        s = self.spec(ev)
        if s is None or 'lp' in s:
            return
        self.ctx.check(len(ev.result) == len(s['angles']), 'T-count', f'{len(ev.result)} transforms', laminate=s)
        for k, t in enumerate(s['angles']):
            got = arr(self.ctx, ev.result[k], (2, 3, 3), 'T_layup')
            self.ctx.close(got[0], oracle.t_stress(t), 1e-10, 'T-stress', f'stress transform of {t} deg')
            self.ctx.close(got[1], oracle.t_strain(t), 1e-10, 'T-strain', f'strain transform of {t} deg')
            self.ctx.seen('ply transform', str(t))

    def on_xi(self, ev):
        s = self.spec(ev)
        if s is None:
            return
        name = ev.name.split('.')[1]
        if 'lp' in s:
            if s['lp'].get(name) is None:
                return
            want = s['lp'][name]
        else:
            want = oracle.lamination_parameters(s)[0 if name == 'xiA' else 1]
        got = arr(self.ctx, ev.result, (4,), name)
        self.ctx.close(got, want, 1e-10, name, 'lamination parameters', laminate=s)
        self.ctx.check((abs(got) <= 1+1e-9).all(), name+'-range', 'lamination parameter outside [-1, 1]', xi=got)
        c2, s2, c4, s4 = got
        # Feasible region of a distribution of angles
        if 'lp' not in s:
            self.ctx.check(c2*c2+s2*s2 <= 1+1e-9 and c4*c4+s4*s4 <= 1+1e-9
                           and 2*c2*c2*(1-c4)+2*s2*s2*(1+c4)+c4*c4+s4*s4-4*c2*s2*s4 <= 1+1e-9, name+'-region',
                           'lamination parameters outside the feasible region', xi=got)
        self.ctx.seen(name, self.sig(s), {'angles': s.get('angles'), name: got})


MATS = ['A', 'B', 'D', 'ABD']


def family(rng, **kw):
    """A laminate and a few close relatives."""
    s = gen.laminate(rng, **kw)
    out = [s]
    for _ in range(int(rng.integers(1, 4))):
        out.append(gen.sibling_laminate(rng, gen.choice(rng, out)))
    return out


class C04(Judge):
    """Ply stiffness in laminate axes, ply transforms, ply positions."""

    def subscribe(self, taps):
        taps.on('LaminateProperty.Q_layup', self.on_Q)
        taps.on('LaminateProperty.T_layup', self.on_T)
        taps.on('LaminateProperty.z_position', self.on_z)

    def drive(self, rng, i):
        objs = [self.b.laminate(s) for s in family(rng)]
        if rng.random() < .3:   # one ply each, same material, angles 90 and -90, 0 and 180, ...
            m = gen.material(rng)
            t = gen.angle(rng)
            for x in (t, -t, t+90, t+180, t-90, t+360):
                objs.append(self.b.laminate(dict(angles=[x], mats=[m], single=True, form='list', units='MPa-mm')))
        for _ in range(2):
            for o in perm(rng, objs):
                for n in perm(rng, ['Q_layup', 'T_layup', 'z_position', gen.choice(rng, ['A', 'B', 'D', 'xiA', 'xiD'])]):
                    self.ctx.sut(getattr, o, n)


class C05(Judge):
    """A, B, D and ABD."""

    def subscribe(self, taps):
        for n in MATS:
            taps.on('LaminateProperty.'+n, self.on_matrix)

    def drive(self, rng, i):
        objs = [self.b.laminate(s) for s in family(rng)]
        for _ in range(2):
            for o in perm(rng, objs):
                for n in perm(rng, MATS+['Q_layup', 'z_position', 'xiA', 'xiD'])[:int(rng.integers(3, 8))]:
                    self.ctx.sut(getattr, o, n)
        for o in objs:
            self.ctx.sut(getattr, o, 'ABD')


# ------------------------------------------------------------------------------- C06
class C06(Check):
    """Relations between the matrices of related laminates (no reference computation)."""

    def mats(self, rng, s):
        o = self.b.laminate(s)
        r = {n: np.array(self.ctx.sut(getattr, o, n), dtype=float) for n in perm(rng, MATS)}
        self.ctx.close(r['ABD'], np.block([[r['A'], r['B']], [r['B'], r['D']]]), 0., 'assembly', 'ABD is not [[A, B], [B, D]]', laminate=s)
        return r

    def drive(self, rng, i):
        s = gen.laminate(rng)
        n = len(s['angles'])
        sa, sb, sd = oracle.abd_scale(s)
        base = self.mats(rng, s)
        A, B, D = base['A'], base['B'], base['D']
        e = 1e-10

        def same(r, a, b, d, key, fa=1., fb=1., fd=1.):
            self.ctx.close(r['A'], a, e*sa*fa, key, 'A: '+key, laminate=s)
            self.ctx.close(r['B'], b, e*sb*fb, key, 'B: '+key, laminate=s)
            self.ctx.close(r['D'], d, e*sd*fd, key, 'D: '+key, laminate=s)
            self.ctx.seen(key, (tuple(map(str, s['angles'])), round(sa, 3)), {'relation': key, 'angles': s['angles']})

        self.ctx.close(base['ABD'], base['ABD'].T, e*np.block([[np.full((3, 3), sa), np.full((3, 3), sb)], [np.full((3, 3), sb), np.full((3, 3), sd)]]),
                       'symmetry', 'ABD is not symmetric', laminate=s)
        T = np.sqrt(12*sd/sa)
        sc = np.array([1, 1, 1, 1/T, 1/T, 1/T])
        w = np.linalg.eigvalsh((base['ABD']+base['ABD'].T)/2*np.outer(sc, sc))
        self.ctx.check(w[0] > -1e-11*w[-1], 'positive', 'ABD is not positive definite', eigenvalues=w, laminate=s)
        self.ctx.seen('positive definite')
        # rotation of the whole laminate
        phi = gen.choice(rng, [90, -90, 45, 30, 180, -45, 60, float(rng.uniform(-180, 180)), float(rng.uniform(-5, 5))])
        r = self.mats(rng, dict(s, angles=[t+phi for t in s['angles']]))
        t = oracle.t_strain(phi)
        same(r, t.T @ A @ t, t.T @ B @ t, t.T @ D @ t, 'rotation')
        # mirror
        j = np.diag([1., 1., -1.])
        r = self.mats(rng, dict(s, angles=[-t for t in s['angles']]))
        same(r, j@A@j, j@B@j, j@D@j, 'mirror')
        # upside down
        rev = dict(s, angles=s['angles'][::-1], mats=s['mats'][::-1])
        same(self.mats(rng, rev), A, -B, D, 'reversal')
        # half turns of single plies
        r = self.mats(rng, dict(s, angles=[t+int(gen.choice(rng, [0, 180, -180, 360])) for t in s['angles']]))
        same(r, A, B, D, 'half turn')
        # thickness scaling
        f = float(gen.choice(rng, [2., .5, 10., .1, rng.uniform(.2, 5)]))
        r = self.mats(rng, dict(s, mats=[dict(m, thickness=m['thickness']*f) for m in s['mats']]))
        same(r, A*f, B*f**2, D*f**3, 'thickness', f, f**2, f**3)
        # stiffness scaling
        g = float(gen.choice(rng, [2., 1e-3, 1e3, rng.uniform(.2, 5)]))
        r = self.mats(rng, dict(s, mats=[dict(m, **{k: m[k]*g for k in ('e', 'g', 'e1', 'e2', 'g12') if k in m}) for m in s['mats']]))
        same(r, A*g, B*g, D*g, 'stiffness', g, g, g)
        # a ply cut in two
        k = int(rng.integers(n))
        c = float(gen.choice(rng, [.5, rng.uniform(.1, .9)]))
        m = s['mats'][k]
        cut = dict(s, single=False, angles=s['angles'][:k+1]+s['angles'][k:],
                   mats=s['mats'][:k]+[dict(m, thickness=m['thickness']*c), dict(m, thickness=m['thickness']*(1-c))]+s['mats'][k+1:])
        same(self.mats(rng, cut), A, B, D, 'split ply')
        # symmetric double
        sym = dict(s, angles=s['angles']+s['angles'][::-1], mats=s['mats']+s['mats'][::-1])
        r = self.mats(rng, sym)
        # lower half: the plies of s centred at -T/2
        Tt = sum(m['thickness'] for m in s['mats'])
        z0 = -Tt/2
        same(r, 2*A, 0*B, 2*(D+2*z0*B+z0*z0*A), 'symmetric', 2, 4, 8)
        # antisymmetric double: A16, A26, D16, D26 vanish, B11, B12, B22, B66 vanish
        an = dict(s, angles=s['angles']+[-t for t in s['angles'][::-1]], mats=s['mats']+s['mats'][::-1])
        r = self.mats(rng, an)
        for nm, sl, x in (('A', [(0, 2), (1, 2)], 2*sa), ('D', [(0, 2), (1, 2)], 8*sd), ('B', [(0, 0), (0, 1), (1, 1), (2, 2)], 4*sb)):
            for p in sl:
                self.ctx.close(r[nm][p], 0., e*x, 'antisymmetric', f'{nm}{p} of an antisymmetric laminate', laminate=an)
        self.ctx.seen('antisymmetric', tuple(map(str, an['angles'])))


# ------------------------------------------------------------------------------- C07
class C07(Judge):
    """Lamination parameters and the laminates defined by them."""

    def subscribe(self, taps):
        taps.on('LaminateProperty.xiA', self.on_xi)
        taps.on('LaminateProperty.xiD', self.on_xi)
        for n in MATS:
            taps.on('LaminateProperty.'+n, self.on_lp_matrix)

    def on_lp_matrix(self, ev):
        s = self.spec(ev)
        if s is not None and 'lp' in s:
            self.on_matrix(ev)

    def drive(self, rng, i):
        s = gen.laminate(rng, iso=0, single=rng.random() < .7)
        rel = [s]+[gen.sibling_laminate(rng, s) for _ in range(2)]
        for t in rel:
            o = self.b.laminate(t)
            for n in perm(rng, ['xiA', 'xiD', 'xiA', gen.choice(rng, ['A', 'D'])]):
                self.ctx.sut(getattr, o, n)
        # round trip through the lamination parameters
        mats0 = s['mats'][0]
        if all(m is mats0 or m == mats0 for m in s['mats']) and mats0['kind'] == 'ortho':
            o = self.b.laminate(s)
            T = sum(m['thickness'] for m in s['mats'])
            xiA, xiD = self.ctx.sut(getattr, o, 'xiA'), self.ctx.sut(getattr, o, 'xiD')
            st = {'xiA': gen.choice(rng, [np.array, list, tuple])(xiA), 'xiD': gen.choice(rng, [np.array, list, tuple])(xiD), 'T': T}
            import composipy
            p = self.ctx.sut(composipy.LaminateProperty, st, self.b.material(mats0))
            sa, sb, sd = oracle.abd_scale(s)
            self.ctx.close(self.ctx.sut(getattr, p, 'A'), self.ctx.sut(getattr, o, 'A'), 1e-10*sa, 'round-trip', 'A from its lamination parameters', laminate=s)
            self.ctx.close(self.ctx.sut(getattr, p, 'D'), self.ctx.sut(getattr, o, 'D'), 1e-10*sd, 'round-trip', 'D from its lamination parameters', laminate=s)
            self.ctx.close(self.ctx.sut(getattr, p, 'B'), np.zeros((3, 3)), 0., 'round-trip', 'B of a laminate from lamination parameters')
            self.ctx.seen('round trip', tuple(map(str, s['angles'])))
        lp = gen.lp_laminate(rng)
        objs = []
        for _ in range(3):
            objs.append(self.b.laminate(lp))
            lp = copy.deepcopy(lp)
            k = rng.integers(5)
            if k == 0:
                lp['lp']['T'] *= float(rng.uniform(.5, 2))
            elif k == 1:
                lp['lp']['xiD'] = gen.feasible_xi(rng)
            elif k == 2:
                lp['lp']['xiA'] = gen.feasible_xi(rng)
            elif k == 3:
                lp['lp'].pop('xiA', None)
            else:
                lp['mats'] = [sib_material(rng, lp['mats'][0])]
        for o in perm(rng, objs*2):
            has = 'xiA' in self.b.spec_of(o)['lp']
            for n in perm(rng, MATS+['xiD', 'xiD']+['xiA']*has)[:int(rng.integers(2, 7))]:
                self.ctx.sut(getattr, o, n)


# ------------------------------------------------------------------------------- C08
class C08(Judge):
    """Histories: reads in any order, repeated, over several objects, with their inputs shared."""

    def subscribe(self, taps):
        for n in MATS:
            taps.on('LaminateProperty.'+n, self.on_matrix)
        taps.on('LaminateProperty.z_position', self.on_z)
        taps.on('LaminateProperty.Q_layup', self.on_Q)
        taps.on('LaminateProperty.T_layup', self.on_T)
        taps.on('LaminateProperty.xiA', self.on_xi)
        taps.on('LaminateProperty.xiD', self.on_xi)
        for n in MATS+['z_position', 'Q_layup', 'T_layup', 'xiA', 'xiD']:
            taps.on('LaminateProperty.'+n, self.keep)
        for n in ('epsilon0', 'calculate_strain', 'calculate_stress', 'calculate_maxstressmargin'):
            taps.on('LaminateStrength.'+n, self.on_strength)
            taps.on('LaminateStrength.'+n, self.keep)

    def freeze(self, v):
        if hasattr(v, 'to_numpy'):
            return v.copy(deep=True)
        return copy.deepcopy(v)

    def keep(self, ev):
        if self.b.spec_of(ev.obj) is not None:
            self.kept.append((ev.name, ev.result, self.freeze(ev.result)))

    def same(self, a, b):
        if hasattr(a, 'equals'):
            return a.equals(b)
        return all(np.array_equal(x, y) for x, y in zip(a, b)) and len(a) == len(b) if isinstance(a, (list, tuple)) else np.array_equal(a, b)

    def on_strength(self, ev):
        o = ev.obj
        ls = self.b.spec_of(o)
        if ls is None:
            return
        s, x = ls['lam'], ls['loads']
        name = ev.name.split('.')[1]
        e0 = oracle.midplane(s, x)
        T = float(np.sqrt(12*oracle.abd_scale(s)[2]/oracle.abd_scale(s)[0]))
        big = max(abs(e0[:3]).max(), abs(e0[3:]).max()*T, 1e-300)
        tol = 1e-7*big
        if name == 'epsilon0':
            self.ctx.close(np.asarray(ev.result)*np.array([1, 1, 1, T, T, T]), e0*np.array([1, 1, 1, T, T, T]), tol, 'history-epsilon0',
                           'mid-plane strains do not belong to the current loads', state=ls)
        elif name in ('calculate_strain', 'calculate_stress'):
            z = oracle.z_faces(s)
            df = ev.result
            for k, t in enumerate(s['angles']):
                for j in (0, 1):
                    e = e0[:3]+z[k+j]*e0[3:]
                    r = df.iloc[2*k+j]
                    if name == 'calculate_strain':
                        got = [float(r[c]) for c in ('epsilonx', 'epsilony', 'gammaxy', 'epsilon1', 'epsilon2', 'gamma12')]
                        want = np.concatenate([e, oracle.t_strain(t) @ e])
                        tl = tol
                    else:
                        got = [float(r[c]) for c in ('sigmax', 'sigmay', 'tauxy', 'sigma1', 'sigma2', 'tau12')]
                        sg = oracle.q_bar(s['mats'][k], t) @ e
                        want = np.concatenate([sg, oracle.t_stress(t) @ sg])
                        tl = tol*abs(oracle.ply_Q(s['mats'][k])).max()
                    self.ctx.close(got, want, tl, 'history-'+name, f'ply {k+1} row {j} does not belong to the current state', state=ls)
        elif any(x):
            lo, hi = oracle.margins(s, x, 1e-7)
            got = np.array([[float(v) for v in ev.result[c]] for c in ('margin_t1', 'margin_c1', 'margin_t2', 'margin_c2', 'margin_s')]).T
            self.ctx.check(got.shape == lo.shape and ((got >= lo) & (got <= hi)).all(), 'history-'+name,
                           'margins do not belong to the current state', state=ls, got=got, lo=lo, hi=hi)
        self.ctx.seen(name, (tuple(map(str, s.get('angles', ()))), rnd(x, 6)))

    def step(self, f, *a, **k):
        return self.ctx.sut(f, *a, **k)

    def drive(self, rng, i):
        import composipy
        self.kept = []
        fam = family(rng, allow=True, iso=0, maxply=12)
        shared = None
        inputs = []
        objs = []
        mats = {}

        def mat(m):
            k = key(m)
            if k not in mats:
                mats[k] = self.b.material(m)
            return mats[k]
        for s in fam:
            st = {'list': list, 'tuple': tuple, 'array': np.array}[s['form']](s['angles'])
            pl = mat(s['mats'][0]) if s['single'] else [mat(m) for m in s['mats']]
            inputs.append((st, copy.deepcopy(st), pl, list(pl) if isinstance(pl, list) else pl))
            objs.append(self.b.remember(self.ctx.sut(composipy.LaminateProperty, st, pl), s))
            shared = (st, s)
        # the same stacking list with other plies
        st, s = shared
        m2 = gen.material(rng, s['units'], 0, True)
        objs.append(self.b.remember(self.ctx.sut(composipy.LaminateProperty, st, mat(m2)), dict(s, mats=[m2]*len(s['angles']))))
        # lamination parameters sharing one dict
        lp = gen.lp_laminate(rng, s['units'])
        d = {k: ({'list': list, 'tuple': tuple, 'array': np.array}[lp['lpform']](v) if k != 'T' else v) for k, v in lp['lp'].items()}
        dcopy = copy.deepcopy(d)
        objs.append(self.b.remember(self.ctx.sut(composipy.LaminateProperty, d, mat(lp['mats'][0])), lp))
        lp2 = dict(lp, mats=[sib_material(rng, lp['mats'][0])])
        objs.append(self.b.remember(self.ctx.sut(composipy.LaminateProperty, d, mat(lp2['mats'][0])), lp2))
        stg = []
        plain = [o for o in objs if 'lp' not in self.b.spec_of(o)]
        for o in plain[:3]+plain[:1]:
            x = gen.loads6(rng, self.b.spec_of(o))
            if not any(x):
                x[0] = 1.
            stg.append(self.b.strength(o, x))
        if 'xiA' in lp['lp'] and min(np.linalg.eigvalsh(m)[0]/np.linalg.eigvalsh(m)[-1] for m in oracle.clt(lp)[::2]) > 1e-6:
            stg.append(self.b.strength(objs[-2], gen.loads6(rng, lp)))
        for _ in range(30):
            if rng.random() < .6:
                o = gen.choice(rng, objs)
                s = self.b.spec_of(o)
                if 'lp' in s:
                    n = gen.choice(rng, MATS+['xiD']+['xiA']*('xiA' in s['lp']))
                else:
                    n = gen.choice(rng, MATS+['z_position', 'Q_layup', 'T_layup', 'xiA', 'xiD'])
                self.step(getattr, o, n)
            else:
                o = gen.choice(rng, stg)
                st_ = self.b.spec_of(o)
                u = rng.random()
                if u < .25:
                    x = st_['loads']
                    new = list(x)
                    k, j = int(rng.integers(6)), int(rng.integers(6))
                    kind = gen.choice(rng, ['other', 'nearly', 'sign', 'swap', 'double'], [.5, .15, .1, .15, .1])
                    if kind == 'nearly':
                        new = [v*(1+float(gen.choice(rng, [1e-5, 1e-4, 1e-3]))*(i in (k, j))) for i, v in enumerate(x)]
                    elif kind == 'sign':
                        new[k] = -x[k]
                    elif kind == 'swap':
                        new[k], new[j] = x[j], x[k]
                    elif kind == 'double':
                        new = [2*v for v in x]
                    if new == list(x) or not any(new):
                        new[k] = gen.loads6(rng, st_['lam'])[k] or float(gen.loads6(rng, st_['lam'])[k]) or 1.
                    for i, v in enumerate(new):
                        if v != x[i] or rng.random() < .1:
                            setattr(o, ['Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy'][i], v)
                    st_['loads'] = new
                    self.ctx.seen('load changed')
                self.step(getattr(o, 'epsilon0' if 'lp' in st_['lam'] else gen.choice(
                    rng, ['epsilon0', 'calculate_strain', 'calculate_stress', 'calculate_stress', 'calculate_maxstressmargin'])))
        for st, c, pl, pc in inputs:
            self.ctx.check(type(st) is type(c) and list(st) == list(c), 'input-changed', 'the stacking given was modified', now=st, was=c)
            self.ctx.check((len(pl) == len(pc) and all(p is q for p, q in zip(pl, pc))) if isinstance(pl, list) else pl is pc,
                           'input-changed', 'the ply list given was modified')
        self.ctx.check(set(d) == set(dcopy) and all(np.array_equal(d[k], dcopy[k]) for k in d), 'input-changed',
                       'the lamination-parameter dict given was modified', now=d, was=dcopy)
        for name, live, snap in self.kept:
            self.ctx.check(self.same(live, snap), 'result-changed', f'a result of {name} changed after it was returned', now=live, was=snap)
            self.ctx.seen('result still intact')
