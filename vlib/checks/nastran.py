"""C25, C26: stacking sequence notation and PCOMP cards."""
import numpy as np

from .. import gen
from .base import Check


def number(rng):
    u = rng.random()
    if u < .6:
        v = str(gen.choice(rng, [0, 45, 90, 30, 60, 15, 75, 22, 135, 180, 5, 10]))
    else:
        v = gen.choice(rng, ['22.5', '0.5', '67.50', '.5', '12.', '0.0', '89.999', '1e1'])
    return v


def unit(rng):
    """(text, plies)"""
    v = number(rng)
    pm = rng.random() < .25
    neg = not pm and rng.random() < .3
    n = int(gen.choice(rng, [0, 1, 2, 3, 4, 5, 10, 12, 25, 100, int(rng.integers(13, 130))], [.5, .1, .12, .1, .05, .05, .03, .02, .015, .003, .012]))
    x = float(v)
    pl = [-x if neg or (pm and k % 2) else x for k in range(n or 1)]
    text = (gen.choice(rng, ['\\pm', '\\pm', '\\pm ']) if pm else '')+('-' if neg else gen.choice(rng, ['', '', '', '+']) if not pm else '')+v
    if n:
        text += gen.choice(rng, ['_%d', '_{%d}']) % n
    sp = gen.choice(rng, ['', '', '', ' '])
    return sp+text+gen.choice(rng, ['', '', '', ' ']), pl


def expression(rng):
    items, plies = [], []
    for _ in range(int(gen.choice(rng, [1, 2, 3, 4, 6, 9, int(rng.integers(10, 40))], [.2, .2, .2, .15, .12, .1, .03]))):
        if rng.random() < .3:
            us = [unit(rng) for _ in range(int(rng.integers(1, 5 if rng.random() < .97 else 15)))]
            k = int(gen.choice(rng, [1, 2, 3, 4, 11, int(rng.integers(5, 110))], [.2, .25, .2, .2, .1, .05]))
            items.append('('+'/'.join(u[0] for u in us)+')'+gen.choice(rng, ['_%d', '_{%d}', '%d']) % k)
            plies += k*[p for u in us for p in u[1]]
        else:
            t, p = unit(rng)
            items.append(t)
            plies += p
    text = '['+'/'.join(items)+']'
    sym = rng.random() < .45
    if sym:
        text += gen.choice(rng, ['s', 'S'])
        plies = plies+plies[::-1]
    return gen.choice(rng, ['', '', ' ', '\n'])+text+gen.choice(rng, ['', '', ' ']), plies


DOC = r'[\pm45_{1}/0_2/90/(0/90)_1]s'
DOC_OUT = [45.0, -45.0, 0.0, 90.0, 0.0, 90.0, 90.0, 0.0, 90.0, 0.0, -45.0, 45.0]
# what it gives today (known finding)
DOC_KNOWN = [45.0, 0.0, 0.0, 90.0, 0.0, 90.0, 90.0, 0.0, 90.0, 0.0, 0.0, 45.0]


class C25(Check):
    """build_sequence against a reference interpreter of the notation."""

    def subscribe(self, taps):
        taps.on('build_sequence', self.on_seq)
        self.expect = {}

    def on_seq(self, ev):
        text = ev.args[0] if ev.args else ev.kwargs['stacking']
        if text not in self.expect:
            return
        want = self.expect[text]
        self.ctx.check(isinstance(ev.result, list), 'type', 'the result is not a list')
        try:
            got = [float(x) for x in ev.result]
        except Exception:
            self.ctx.fail('type', 'the result holds other things than numbers', text=text, got=ev.result)
        self.ctx.check(got == want, 'sequence', f'{text!r} gives {got[:40]}, means {want[:40]}')
        self.ctx.seen('sequence', text, {'text': text, 'plies': want})
        if '(' in text:
            self.ctx.seen('with blocks')
        if text.strip()[-1] in 'sS':
            self.ctx.seen('symmetric')
        if 'pm' in text:
            self.ctx.seen('with pm')

    def drive(self, rng, i):
        import composipy.nastranapi as api
        self.expect.clear()
        if i == 0:
            got = self.ctx.sut(api.build_sequence, DOC)
            self.ctx.seen('documented example')
            self.ctx.check(got == DOC_OUT, 'doc-example' if got == DOC_KNOWN else 'doc-example-other', f'the documented example {DOC!r} gives {got}, documented is {DOC_OUT}')
            return
        for _ in range(20):
            t, p = expression(rng)
            if len(p) > 3000:
                continue
            self.expect[t] = p
            r = self.ctx.sut(api.build_sequence, t)
            if rng.random() < .2:
                r.append(1.)        # the caller owns the list
                self.ctx.sut(api.build_sequence, t)


def parse_pcomp(ctx, text):
    """A strict reader of one free-format PCOMP entry."""
    lines = text.split('\n')
    while lines and lines[-1] == '':
        lines.pop()
    ctx.check(lines and all(l.strip() for l in lines), 'blank-line', 'blank line inside the entry', text=text)
    rows = [[f.strip() for f in l.split(',')] for l in lines]
    head = rows[0]
    ctx.check(head[0] == 'PCOMP', 'header', f'first field is {head[0]!r}')
    plies = []
    for k, r in enumerate(rows):
        ctx.check(len(r) <= 10, 'fields', f'line {k+1} has {len(r)} fields', text=text)
        r += ['']*(10-len(r))
        if k:
            ctx.check(r[0].startswith('+'), 'continuation', f'line {k+1} does not start with a continuation mark', text=text)
        if k < len(rows)-1:
            ctx.check(r[9].startswith('+'), 'continuation', f'line {k+1} has {r[9]!r} in field 10', text=text)
            ctx.check(k == 0 or rows[k+1][0] == r[9] or r[9] == '+', 'continuation', 'continuation marks differ', text=text)
        else:
            ctx.check(r[9] == '' or r[9].startswith('+'), 'continuation', f'last line has {r[9]!r} in field 10', text=text)
        if k:
            for j in (1, 5):
                four = r[j:j+4]
                if four == ['']*4:
                    ctx.check(k == len(rows)-1 and j == 5, 'gap', f'empty ply inside line {k+1}', text=text)
                    continue
                plies.append(four)
    return head, plies


class C26(Check):
    """build_pcomp read back by a strict reader."""

    def subscribe(self, taps):
        taps.on('build_pcomp', self.on_card)

    def num(self, text, want, what, card):
        try:
            ok = float(text) == float(want)
        except ValueError:
            ok = False
        if what in ('pid', 'material id'):      # Nastran reads 10. as a real
            ok = ok and text.strip().lstrip('+').isdigit()
        self.ctx.check(ok, what, f'{what} reads {text!r}, given {want!r}', card=card)

    def on_card(self, ev):
        w = self.want
        card = ev.result
        self.ctx.check(isinstance(card, str), 'type', 'the card is not a string')
        head, plies = parse_pcomp(self.ctx, card)
        self.num(head[1], w['pid'], 'pid', card)
        if w['z0'] == '':
            self.ctx.check(head[2] == '', 'z0', f'z0 reads {head[2]!r}, none given', card=card)
        else:
            self.num(head[2], w['z0'], 'z0', card)
        self.ctx.check(head[3:9] == ['']*6, 'header-fields', f'fields 4-9 of the header: {head[3:9]}', card=card)
        n = len(w['seq'])
        self.ctx.check(len(plies) == n, 'ply-count', f'{len(plies)} plies, given {n}', card=card)
        for k in range(n):
            mid, t, th, so = plies[k]
            self.num(mid, w['mid'][k], 'material id', card)
            self.num(t, w['t'][k], 'thickness', card)
            self.num(th, w['seq'][k], 'angle', card)
            self.ctx.check(so == w['sout'][k], 'sout', f'ply {k+1}: SOUT {so!r}, should be {w["sout"][k]!r}', card=card)
        self.ctx.seen('card', (tuple(map(str, w['seq'])), str(w['sout']), w['z0']), {'plies': n, 'card': card[:200]})
        self.ctx.seen('odd ply count' if n % 2 else 'even ply count')

    def drive(self, rng, i):
        import composipy.nastranapi as api
        for _ in range(12):
            n = int(gen.choice(rng, [1, 2, 3, 4, 5, 8, 9, 16, 17, int(rng.integers(1, 80)), int(rng.integers(80, 500))], [.11]*9+[.009, .001]))
            seq = [gen.angle(rng) for _ in range(n)]
            form = gen.choice(rng, [list, tuple, np.array], [.7, .2, .1])
            args = {'sequence': form(seq)}
            w = {'seq': seq}
            if rng.random() < .5:
                v = int(gen.choice(rng, [1, 7, 101, 99999999]))
                args['midi'], w['mid'] = v, [v]*n
            else:
                w['mid'] = [int(rng.integers(1, 500)) for _ in range(n)]
                args['midi'] = gen.choice(rng, [list, tuple])(w['mid'])
            if rng.random() < .5:
                v = gen.choice(rng, [.2, .127, 1, float(rng.uniform(.01, 1)), 1e-4])
                args['ti'], w['t'] = v, [v]*n
            else:
                w['t'] = [gen.choice(rng, [.2, .15, 1, float(rng.uniform(.05, 2))]) for _ in range(n)]
                args['ti'] = gen.choice(rng, [list, tuple])(w['t'])
            w['pid'], w['z0'] = 1, ''
            if rng.random() < .6:
                w['pid'] = int(gen.choice(rng, [1, 2, 10, 4321, 99999999, int(rng.integers(1, 10**8))]))
                args['pid'] = gen.choice(rng, [int, int, np.int64, float, np.float64])(w['pid'])
            if rng.random() < .4:
                w['z0'] = args['z0'] = gen.choice(rng, [0, 0., -.5, 1.25, float(rng.normal())])
            fib = ['YES' if k in (0, n-1) else 'NO' for k in range(n)]
            u = gen.choice(rng, ['default', 'FIBER', 'YES', 'NO', 'list'])
            if u == 'default':
                w['sout'] = fib
            elif u == 'list':
                if n in (2, 3) and rng.random() < .5:
                    # as many plies as letters in YES or NO
                    pass
                w['sout'] = [gen.choice(rng, ['YES', 'NO']) for _ in range(n)]
                args['sout'] = gen.choice(rng, [list, tuple])(w['sout'])
            else:
                args['sout'] = u
                w['sout'] = {'FIBER': fib, 'YES': ['YES']*n, 'NO': ['NO']*n}[u]
            self.want = w
            before = {k: (list(v) if isinstance(v, (list, tuple)) else v) for k, v in args.items()}
            if rng.random() < .3:
                a = [args.pop(k) for k in ('sequence', 'midi', 'ti')]
                self.ctx.sut(api.build_pcomp, *a, **args)
                args.update(zip(('sequence', 'midi', 'ti'), a))
            else:
                self.ctx.sut(api.build_pcomp, **args)
            for k, v in before.items():
                now = args[k]
                self.ctx.check(list(now) == v if isinstance(v, list) else now is v, 'input-changed', f'{k} was modified')
            # lists that do not fit
            if rng.random() < .4 and n > 1:
                k = gen.choice(rng, ['midi', 'ti', 'sout'])
                bad = {'midi': [1]*(n+1), 'ti': [.1]*(n-1), 'sout': ['YES']*(n+int(gen.choice(rng, [-1, 1, 2])))}[k]
                kw = dict(args, **{k: bad})
                self.ctx.sut_rejects(ValueError, api.build_pcomp, **kw)
                self.ctx.seen('misfit rejected', (k, n))
