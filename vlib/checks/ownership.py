"""C33: objects keep the definition they were built with, whatever happens to the caller's containers later."""
import copy

import numpy as np

from .. import gen, oracle
from ..taps import Event
from .laminate import MATS
from .nastran import expression
from .schedule import C29

STRENGTH = ['epsilon0', 'calculate_strain', 'calculate_stress', 'calculate_maxstressmargin']


class C33(C29):
    def edit(self, rng, c):
        """Changes a container in place the way a program goes on using it."""
        if isinstance(c, np.ndarray):
            if not len(c):
                return None
            how = gen.choice(rng, ['item', 'negate', 'fill', 'sort', 'shift'])
            if how == 'item':
                c[int(rng.integers(len(c)))] = c[-1]+1 if c.dtype != object else c[0]
            elif how == 'negate':
                c *= -1
            elif how == 'fill':
                c.fill(0)
            elif how == 'sort':
                c.sort()
                c[:] = c[::-1].copy()
            else:
                c += 7
            return 'array '+how
        if isinstance(c, list):
            how = gen.choice(rng, ['append', 'pop', 'item', 'clear', 'reverse', 'extend', 'insert', 'delete'])
            if not c and how != 'append':
                return None
            new = gen.choice(rng, c) if c else 0
            if isinstance(new, (int, float)):
                new = type(new)(new/2+10)
            if how == 'append':
                c.append(new)
            elif how == 'pop':
                c.pop()
            elif how == 'item':
                c[int(rng.integers(len(c)))] = new
            elif how == 'clear':
                c.clear()
            elif how == 'reverse':
                c.reverse()
            elif how == 'extend':
                c.extend(c[::-1])
            elif how == 'insert':
                c.insert(0, new)
            else:
                del c[0]
            return 'list '+how
        if isinstance(c, dict):
            how = gen.choice(rng, ['item', 'inner', 'inner', 'clear', 'pop', 'update'])
            if not c:
                return None
            k = gen.choice(rng, sorted(c))
            if how == 'inner' and isinstance(c[k], (list, np.ndarray)):
                r = self.edit(rng, c[k])
                return r and 'inner '+r
            if how == 'clear':
                c.clear()
            elif how == 'pop':
                del c[k]
            elif k == 'T':
                c[k] = 2*c[k]
            elif k.startswith('xi'):
                c[k] = [.1, 0., .2, 0.]
            else:
                c[k] = gen.choice(rng, ['free', 'CLAMPED', ['TZ'], ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ']])
            return 'dict item'
        return None

    def read(self, o, name, **kw):
        r = getattr(o, name)
        if callable(r):
            r = r(**kw)
        e = Event(type(o).__name__+'.'+name, o, (), kw, 0)
        e.result = self.freeze(r)
        self.log.append(e)
        self.got.append((name, r))
        if name == 'buckling_analysis':
            self.modes[id(o)] = (o, copy.deepcopy(r))

    def change(self, rng, r):
        """Changes a result in place, as a program does that needs it in other units or another order."""
        if isinstance(r, np.ndarray):
            if not r.flags.writeable:
                return None
            how = gen.choice(rng, ['scaled', 'zeroed', 'item', 'shifted', 'negated'])
            if how == 'scaled':
                r *= 1e-3
            elif how == 'zeroed':
                r[...] = 0
            elif how == 'item':
                r[tuple(int(rng.integers(n)) for n in r.shape)] += 1
            elif how == 'shifted':
                r += 1
            else:
                r *= -1
            return 'array '+how
        if hasattr(r, 'to_numpy'):
            k = gen.choice(rng, list(r.columns))
            if len(r.columns) < 8:
                return None
            how = gen.choice(rng, ['column', 'cell', 'sorted', 'dropped'])
            if how == 'column':
                r[k] = 0
            elif how == 'cell':
                r.iloc[int(rng.integers(len(r))), int(rng.integers(4, len(r.columns)-1))] = 7.
            elif how == 'sorted':
                r.sort_values(k, inplace=True, ascending=False)
            else:
                r.drop(columns=[k], inplace=True)
            return 'table '+how
        if isinstance(r, (list, tuple)) and len(r):
            x = gen.choice(rng, r)
            if isinstance(x, (np.ndarray, list, tuple)) and (isinstance(r, tuple) or rng.random() < .7):
                how = self.change(rng, x)
                return how and 'inner '+how
            if isinstance(r, list):
                if rng.random() < .5:
                    r.reverse()
                    return 'list reversed'
                r[int(rng.integers(len(r)))] = 0.
                return 'list item'
        return None

    def change_result(self, rng):
        name, r = gen.choice(rng, self.got)
        how = self.change(rng, r)
        if how:
            self.edits.append(f'{name} {how}')
            self.ctx.seen('result changed', (name, how))
            self.ctx.seen('result changed: '+name)

    def stacking(self, rng, s):
        """A container for the angles, one of the caller's."""
        c = np.array(s['angles'], dtype=float) if rng.random() < .3 else list(s['angles'])
        self.mine.append(c)
        return c

    def add_laminate(self, rng, s):
        c = self.stacking(rng, s)
        if s['single'] and rng.random() < .6:
            pl = self.mats[id(s['mats'][0])]
        else:
            pl = [self.mats[id(m)] for m in s['mats']]
            self.mine.append(pl)
        kw = dict(plies=pl) if rng.random() < .2 else {}
        o = self.ctx.sut(self.c.LaminateProperty, c, **kw) if kw else self.ctx.sut(self.c.LaminateProperty, c, pl)
        self.lams.append(self.b.remember(o, copy.deepcopy(s)))
        if self.made.get(id(c)):
            self.ctx.seen('container used again')
        self.made[id(c)] = c
        self.ctx.seen('laminate of a '+type(c).__name__)
        return o

    def add_parameters(self, rng, units):
        s = gen.lp_laminate(rng, units)
        d = {k: v if k == 'T' else np.array(v) if rng.random() < .3 else list(v) for k, v in s['lp'].items()}
        if rng.random() < .25 and 'xiA' in d:       # one list for both
            s['lp']['xiA'] = list(s['lp']['xiD'])
            d['xiA'] = d['xiD']
        o = self.ctx.sut(self.c.LaminateProperty, d, self.b.material(s['mats'][0]))
        self.mine.append(d)
        self.mine += [v for v in d.values() if not isinstance(v, float)]
        self.lams.append(self.b.remember(o, copy.deepcopy(s)))
        self.ctx.seen('laminate of parameters')

    def add_plate(self, rng, o, cons, default=False):
        p = gen.plate(rng, self.b.spec_of(o), m=int(rng.integers(2, 4)), n=int(rng.integers(2, 4)), cons=copy.deepcopy(cons))
        if not self.j.usable(p):
            return None
        kw = dict(zip(('Nxx', 'Nyy', 'Nxy'), p['N']), m=p['m'], n=p['n'])
        if not default:
            kw['constraints'] = cons
        q = self.b.remember(self.ctx.sut(self.c.PlateStructure, o, p['a'], p['b'], **kw), p)
        self.plates.append(q)
        self.ctx.seen('plate')
        return q

    def fresh_cons(self, rng):
        c = gen.constraints(rng)
        if isinstance(c, dict):
            if rng.random() < .2:       # one list for two edges
                for e in c:
                    if isinstance(c[e], list):
                        k = gen.choice(rng, sorted(c))
                        d = dict(c)
                        d[k] = c[e]
                        c = d if gen.w_restrained(d) else c
                        break
            self.mine.append(c)
            self.mine += [v for v in c.values() if isinstance(v, list)]
        return c

    def read_some(self, rng, n):
        for _ in range(n):
            u = rng.random()
            if u < .08:
                m = gen.choice(rng, list(self.mats.values()))
                r, want = self.ctx.sut(getattr, m, 'Q_0'), oracle.ply_Q(self.b.spec_of(m))
                self.ctx.close(r, want, 1e-10*abs(want).max(), 'Q_0', 'ply stiffness', edits=self.edits)
                self.got.append(('Q_0', r))
                r = self.ctx.sut(m.Invariants)
                self.got.append(('Invariants', r))
                continue
            if u < .55:
                o = gen.choice(rng, self.lams)
                s = self.b.spec_of(o)
                names = MATS+['xiD']+['xiA']*('xiA' in s['lp']) if 'lp' in s else MATS+['z_position', 'Q_layup', 'T_layup', 'xiA', 'xiD']
                name, kw = gen.choice(rng, names), {}
            elif u < .75 and self.stg:
                o = gen.choice(rng, self.stg)
                name, kw = 'epsilon0' if 'lp' in self.b.spec_of(o)['lam'] else gen.choice(rng, STRENGTH), {}
            elif self.plates:
                o = gen.choice(rng, self.plates)
                name, kw = gen.choice(rng, ['calc_K_KG_D', 'buckling_analysis', 'calc_K_KG_ABD'], [.5, .4, .1]), {}
            else:
                continue
            self.ctx.sut(self.read, o, name, **kw)
            if self.edits:
                self.ctx.seen('read after an edit', (name, self.edits[-1], len(self.edits)))
            if self.got and rng.random() < .35:
                self.change_result(rng)
        self.judge(self.log)
        self.log = []

    def drive(self, rng, i):
        import composipy as c
        from composipy.nastranapi import build_sequence
        self.c = c
        self.mine, self.made, self.edits, self.log, self.lams, self.stg, self.plates = [], {}, [], [], [], [], []
        self.mats, self.got, self.modes = {}, [], {}
        from .laminate import family
        specs = family(rng, allow=True, iso=0, maxply=8)[:3]
        for s in specs:
            for m in s['mats']:
                if id(m) not in self.mats:
                    self.mats[id(m)] = self.b.material(m)
        for s in specs[:int(rng.integers(1, 4))]:
            self.add_laminate(rng, s)
        if rng.random() < .6:
            self.add_parameters(rng, specs[0]['units'])
        for o in [o for o in self.lams if 'xiA' in self.b.spec_of(o).get('lp', ['xiA'])][:2]:
            x = gen.loads6(rng, self.b.spec_of(o))
            self.stg.append(self.b.strength(o, x if any(x) else [1.]+x[1:]))
        for o in self.lams[:2]:
            self.add_plate(rng, o, self.fresh_cons(rng))
        if rng.random() < .5:
            self.add_plate(rng, self.lams[0], 'PINNED', default=True)
        for step in range(int(rng.integers(3, 9))):
            u = rng.random()
            if u < .55 and self.mine:
                how = self.edit(rng, gen.choice(rng, self.mine))
                if how:
                    self.edits.append(how)
                    self.ctx.seen('edit: '+how)
            elif u < .65:           # the container is filled anew for the next laminate
                s = gen.choice(rng, specs)
                lists = [x for x in self.made.values() if isinstance(x, list)]
                if lists and len(self.lams) < 7:
                    x = gen.choice(rng, lists)
                    x[:] = s['angles']
                    self.edits.append('list refilled')
                    o = self.ctx.sut(self.c.LaminateProperty, x, [self.mats[id(m)] for m in s['mats']])
                    self.lams.append(self.b.remember(o, copy.deepcopy(s)))
                    self.ctx.seen('container used again')
            elif u < .8:
                o = gen.choice(rng, self.lams)
                q = self.add_plate(rng, o, 'PINNED', default=True)
                if q is not None and rng.random() < .7:
                    # what a plate with the default constraints shows is changed
                    d = q.constraints
                    if isinstance(d, dict):
                        try:
                            self.edit(rng, d)
                        except (TypeError, AttributeError):
                            pass        # read-only
                        else:
                            self.edits.append('constraints shown')
                            self.ctx.seen('constraints shown edited')
            else:
                if len(self.lams) < 7:
                    self.add_laminate(rng, gen.choice(rng, specs))
                self.add_plate(rng, gen.choice(rng, self.lams), self.fresh_cons(rng))
            self.read_some(rng, int(rng.integers(0, 4)))
        t, plies = expression(rng)
        for _ in range(3):
            r = self.ctx.sut(build_sequence, t)
            self.ctx.check([float(x) for x in r] == plies, 'sequence', f'{t!r} gives {r[:40]} after the list returned before was changed', edits=self.edits)
            self.edit(rng, r)
            self.ctx.seen('sequence again', t)
        for o in self.lams:
            s = self.b.spec_of(o)
            if 'lp' not in s:
                self.ctx.check([float(x) for x in o.stacking] == [float(x) for x in s['angles']], 'definition', f'stacking is {list(o.stacking)} after the list given was changed, defined as {s["angles"]}', edits=self.edits)
                twin = self.ctx.sut(self.c.LaminateProperty, list(s['angles']), [self.b.material(m) for m in s['mats']])
            else:
                twin = self.b.laminate(s)
            self.ctx.check(bool(o == twin) and not (o != twin), 'definition', 'not equal to a laminate of the same definition after the containers given were changed', edits=self.edits)
            self.ctx.seen('definition after edits', (str(self.edits), id(o)))
        for o, r in self.modes.values():
            for have, was in zip((o.eigenvalue, o.eigenvector), r):
                self.ctx.check(np.array_equal(have, was, equal_nan=True), 'stored', 'the results a plate stores changed with what was done to those it returned', edits=self.edits)
            self.ctx.seen('stored modes')
        for o in self.plates:
            self.ctx.sut(self.read, o, 'calc_K_KG_D')
        for o in self.lams:
            s = self.b.spec_of(o)
            for name in (['A', 'D', 'xiD'] if 'lp' in s else ['ABD', 'z_position', 'T_layup', 'xiA', 'xiD']):
                self.ctx.sut(self.read, o, name)
        for o in self.stg:
            self.ctx.sut(self.read, o, 'epsilon0')
        self.judge(self.log)
