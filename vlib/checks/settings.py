"""C31, C32: settings of the interpreter and the libraries; copies and pickles."""
import copy
import json
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np

from .. import gen
from ..taps import Event
from .base import Check
from .laminate import MATS
from .schedule import C29

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
# property: sessions in one child
PARTS = {'C01': 20, 'C02': 30, 'C03': 15, 'C04': 15, 'C05': 15, 'C06': 15, 'C07': 15, 'C08': 6, 'C09': 8, 'C10': 8, 'C11': 8, 'C12': 12,
         'C13': 6, 'C14': 6, 'C15': 3, 'C16': 6, 'C17': 3, 'C18': 2, 'C19': 1, 'C20': 5, 'C21': 1, 'C22': 1, 'C23': 2, 'C24': 1,
         'C25': 40, 'C26': 40, 'C27': 3}


# ------------------------------------------------------------------------------- C31
def options(rng):
    """Interpreter flags, environment and settings made by the caller's program."""
    def some(**k):
        return {n: v() for n, v in k.items() if rng.random() < .35}

    def pick(*v):
        return lambda: gen.choice(rng, list(v))

    def num(lo, hi):
        return lambda: int(rng.integers(lo, hi))
    flags = []
    if rng.random() < .5:
        flags.append(gen.choice(rng, ['-O', '-OO']))
    for f in ('-bb', '-X dev', '-X utf8=0', '-X utf8=1', '-X frozen_modules=off', '-W always', '-W default', '-s', '-u', '-X int_max_str_digits=640'):
        if rng.random() < .2:
            flags += f.split()
    env = some(LC_ALL=pick('C', 'POSIX', 'C.UTF-8', 'de_DE.UTF-8', 'xx'), TZ=pick('Asia/Tokyo', 'UTC', 'nowhere'),
               HOME=pick('/nonexistent'), COLUMNS=num(10, 200), MPLBACKEND=pick('agg', 'svg', 'pdf', 'ps', 'template'),
               OPENBLAS_NUM_THREADS=num(1, 5), OMP_NUM_THREADS=num(1, 5), PYTHONIOENCODING=pick('ascii', 'utf-8', 'latin-1'), LANG=pick('C', 'tr_TR'),
               NO_COLOR=pick('1'), TERM=pick('dumb', 'xterm'), PYTHONWARNINGS=pick('always', 'ignore'), PYTHONMALLOC=pick('debug', 'malloc'))
    env['PYTHONHASHSEED'] = int(rng.integers(2**31))
    inside = some(cwd=pick('/', '/usr', 'scratch'), gc=pick('off', 'often'), switch=pick(1e-6, 1.), decimal=num(1, 5), locale=pick(''),
                  errstate=pick('ignore', 'warn'), seed=num(0, 2**31), ion=pick(True), style=pick('ggplot', 'dark_background', 'grayscale', 'fast', 'Solarize_Light2'),
                  printoptions=pick({'precision': 1}, {'legacy': '1.13'}, {'legacy': '1.25'}, {'threshold': 2}, {'suppress': True}, {'floatmode': 'fixed'}, {'sign': '+'}),
                  pandas=pick({'display.precision': 0}, {'display.max_rows': 2}, {'mode.string_storage': 'python'}, {'display.float_format': 'two'},
                              {'display.max_columns': 1}, {'compute.use_numexpr': False}, {'future.infer_string': False}),
                  first=pick('composipy.optimize', 'composipy.nastranapi', 'composipy.core.strength', 'composipy.core.structure', 'composipy.utils',
                             'composipy.pre_integrated_component.functions', 'composipy.pre_integrated_component.build_k', 'composipy.core.material'))
    return flags, env, inside


class C31(Check):
    """Sessions of the other checks in processes with other settings."""

    def attach(self, ctx, taps):
        self.ctx = ctx

    def session(self, rng, i):
        flags, env, inside = options(rng)
        names = list(PARTS)
        pids = [names[i*2 % len(names)]]+[gen.choice(rng, names) for _ in range(2)]
        pids = list(dict.fromkeys(pids))
        job = dict(seed=int(rng.integers(2**31)), parts=[(p, int(rng.integers(1, 10**6)), PARTS[p]) for p in pids], inside=inside)
        full = {k: v for k, v in os.environ.items() if k not in ('VERIF_TIER', 'VERIF_SEED')}
        full.update({k: str(v) for k, v in env.items()})
        with tempfile.TemporaryDirectory() as scratch:
            full['VERIF_SCRATCH'] = scratch
            r = subprocess.run([sys.executable, '-B']+flags+[os.path.join(HERE, 'vlib', 'child.py'), json.dumps(job)], env=full, cwd=scratch,
                               capture_output=True, timeout=600)
        show = dict(flags=' '.join(flags), environment=env, settings=inside, checks=pids)
        out = r.stdout.decode('utf-8', 'replace')
        if 'RESULT' not in out:
            self.ctx.fail('died', f'the process ended with {r.returncode}: {r.stderr.decode("utf-8", "replace")[-1200:]}', **{k: str(v) for k, v in show.items()})
        res = json.loads(out.rpartition('RESULT')[2])
        for k, n in res['events'].items():
            self.ctx.events['under other settings: '+k] += n
        self.ctx.events['tapped calls'] += res['taps']
        for p in pids:
            self.ctx.seen('process', (p, str(flags), str(env), str(inside)), show)
        for f in flags:
            self.ctx.events['flag '+f] += 1
        for k in list(env)+list(inside):
            self.ctx.events['setting '+k] += 1
        for v in res['violations']:
            self.ctx.fail(v['pid']+' '+v['key'], v['what'], **{k: str(w) for k, w in show.items()}, witness=v['witness'])


# ------------------------------------------------------------------------------- C32
SERVER = """
import pickle, sys
def send(x):
    b = pickle.dumps(x)
    sys.stdout.buffer.write(len(b).to_bytes(8, 'little')+b)
    sys.stdout.buffer.flush()
while True:
    n = sys.stdin.buffer.read(8)
    if len(n) < 8:
        break
    try:
        o, name, kw = pickle.loads(sys.stdin.buffer.read(int.from_bytes(n, 'little')))
        r = getattr(o, name)
        send((True, r(**kw) if callable(r) else r, o))
    except BaseException as e:
        send((False, f'{type(e).__name__}: {e}', None))
"""
DEFINITION = {'OrthotropicMaterial': ['e1', 'e2', 'v12', 'g12', 'thickness', 't1', 'c1', 't2', 'c2', 's', 'name', 'v21'],
              'LaminateProperty': ['stacking', 'plies', 'layup'], 'LaminateStrength': ['Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy', 'dproperty'],
              'PlateStructure': ['a', 'b', 'm', 'n', 'Nxx', 'Nyy', 'Nxy', 'constraints', 'dproperty']}


class C32(C29):
    """Copies and pickles of everything, at any time."""
    server = None

    def remote(self, o, name, kw):
        """The result, and the object, as another process sees them."""
        if self.server is None or self.server.poll() is not None:
            self.server = subprocess.Popen([sys.executable, '-B', '-W', 'ignore', '-c', SERVER], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        b = self.ctx.sut(pickle.dumps, (o, name, kw))
        self.server.stdin.write(len(b).to_bytes(8, 'little')+b)
        self.server.stdin.flush()
        n = self.server.stdout.read(8)
        self.ctx.check(len(n) == 8, 'died', 'the other process ended')
        ok, r, back = pickle.loads(self.server.stdout.read(int.from_bytes(n, 'little')))
        self.ctx.check(ok, 'raises', f'{name} of an unpickled {type(o).__name__} raised {r} in another process')
        return r, back

    def same(self, a, b):
        if isinstance(a, (list, tuple, np.ndarray)) and not isinstance(b, (str, dict)):
            return type(a) is type(b) and len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, dict):
            return isinstance(b, dict) and a.keys() == b.keys() and all(self.same(a[k], b[k]) for k in a)
        name = type(a).__name__
        if name in DEFINITION:
            return type(b) is type(a) and all(self.same(getattr(a, n), getattr(b, n)) for n in DEFINITION[name] if hasattr(a, n))
        return type(a) is type(b) and a == b

    def duplicate(self, rng, o):
        how = gen.choice(rng, ['copy', 'deepcopy', 'pickle', 'together'])
        kind = type(o).__name__
        if how == 'copy':
            c = self.ctx.sut(copy.copy, o)
        elif how == 'deepcopy':
            c = self.ctx.sut(copy.deepcopy, o)
        elif how == 'pickle':
            c = self.ctx.sut(lambda: pickle.loads(pickle.dumps(o, protocol=int(rng.integers(2, pickle.HIGHEST_PROTOCOL+1)))))
        else:       # with others that share its parts
            c = self.ctx.sut(lambda: pickle.loads(pickle.dumps([self.lams, o, self.stg]))[1])
        self.ctx.check(type(c) is type(o), 'type', f'{how} of a {kind} is a {type(c).__name__}')
        self.ctx.check(self.same(o, c), 'definition', f'{how} of a {kind} differs from it', original=vars(o), copy=vars(c))
        if kind in ('OrthotropicMaterial', 'LaminateProperty'):
            self.ctx.check((o == c) is True or bool(o == c), 'equality', f'{how} of a {kind} is not equal to it')
            self.ctx.check(not (o != c), 'equality', f'{how} of a {kind} is unequal to it')
        self.ctx.seen(f'{how} of a {kind}', (len(self.log), kind))
        return self.b.remember(c, copy.deepcopy(self.b.spec_of(o)))

    def drive(self, rng, i):
        cons = self.objects(rng)
        given = copy.deepcopy(cons)
        pools = [self.lams, self.stg, self.plates]
        for m in list(self.mats.values())[:2]:
            c = self.duplicate(rng, m)
            self.ctx.close(c.Q_0, m.Q_0, 0, 'definition', 'stiffness of a copied ply')
            self.ctx.close(np.asarray(c.Invariants(), dtype=float), np.asarray(m.Invariants(), dtype=float), 0, 'definition', 'invariants of a copied ply')
        for _ in range(int(rng.integers(6, 16))):
            pool = gen.choice(rng, [0, 0, 1, 2])
            if not pools[pool]:
                continue
            o = gen.choice(rng, pools[pool])
            u = rng.random()
            if u < .4:
                if len(pools[pool]) < 8:
                    pools[pool].append(self.duplicate(rng, o))
            elif u < .55:
                f, o, name, kw = self.ops(rng, 1)[0]
                if f == self.read:
                    r, back = self.remote(o, name, kw)
                    e = Event(type(o).__name__+'.'+name, o, (), kw, 0)
                    e.result = r
                    self.log.append(e)
                    spec = self.b.spec_of(o)
                    self.ctx.check(self.same(o, back), 'definition', f'a {type(o).__name__} came back changed from another process')
                    self.b.remember(back, copy.deepcopy(spec))
                    for pl in pools:
                        if pl and type(pl[0]) is type(back) and len(pl) < 8:
                            pl.append(back)
                    self.ctx.seen('result of another process', (name, len(self.log)))
            if pool == 1 and u < .3 or u > .8 and self.stg:
                o = gen.choice(rng, self.stg)
                k, v = int(rng.integers(6)), float(rng.normal(0, 50))
                setattr(o, ['Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy'][k], v)
                self.b.spec_of(o)['loads'][k] = v
                for s in self.stg:
                    now = [getattr(s, n) for n in DEFINITION['LaminateStrength'][:6]]
                    self.ctx.check(now == list(self.b.spec_of(s)['loads']), 'loads', 'a load changed on one analysis changed those of another', loads=now)
                    self.ctx.seen('loads after a change', k)
            for f, *a, kw in self.ops(rng, int(rng.integers(1, 3))):
                if f == self.read:
                    self.ctx.sut(f, *a, **kw)
            self.judge(self.log)
            self.log = []
        for o in self.lams:
            for name in perm_some(rng, MATS):
                self.ctx.sut(self.read, o, name)
        for o in self.plates:
            self.ctx.sut(self.read, o, 'calc_K_KG_D')
        self.judge(self.log)
        self.ctx.check(cons == given, 'input-changed', 'the constraints given were modified')


def perm_some(rng, names):
    return [n for n in names if rng.random() < .5]
