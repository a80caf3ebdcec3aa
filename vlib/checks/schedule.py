"""C28-C30: interrupted calls, threads, and the state of the process."""
import contextlib
import copy
import dis
import io
import os
import random
import sys
import threading
import time

import numpy as np

from .. import gen, oracle
from ..core import Violated, rnd
from ..taps import Event
from .base import Check, perm
from .laminate import C08, MATS, Judge, family
from .nastran import expression
from .plate import C27, Plate


def inside():
    """Directory of the code under test."""
    import composipy
    return os.path.dirname(os.path.abspath(composipy.__file__))+os.sep


# ------------------------------------------------------------------------------- C28
class Interrupt(KeyboardInterrupt):
    pass


class Interrupter:
    """Runs a call and raises a KeyboardInterrupt before its k-th line of composipy.

    With `once`, a line counts the first time it is reached only."""

    def __init__(self, once):
        self.root = inside()
        self.once = once

    def run(self, k, f, *a, **kw):
        """(lines run, site of the interrupt or None)"""
        self.n, self.k, self.site, self.met = 0, k, None, set()
        sys.settrace(self.call)
        try:
            f(*a, **kw)
        except Interrupt:
            pass
        finally:
            sys.settrace(None)
        return self.n, self.site

    def call(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(self.root) else None

    def line(self, frame, event, arg):
        if event == 'line' and self.site is None:
            if self.once:
                at = (frame.f_code, frame.f_lineno)
                if at in self.met:
                    return self.line
                self.met.add(at)
            self.n += 1
            if self.n == self.k:
                self.site = (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                raise Interrupt
        return self.line


class Interrupted:
    """Mixed into a history check: some steps are first begun and interrupted."""
    lines = {}

    def prepare(self, rng):
        self.dice = np.random.default_rng(int(rng.integers(2**31)))
        self.share = float(gen.choice(self.dice, [.3, .6, .9]))

    def step(self, f, *a, **k):
        while self.dice.random() < self.share:
            if not self.interrupt(f, *a, **k):
                break
        return self.ctx.sut(f, *a, **k)

    def interrupt(self, f, *a, **k):
        once = self.dice.random() < .4
        name = (getattr(f, '__name__', str(f)), 'first times' if once else 'lines')+tuple(x for x in a if isinstance(x, str))
        most = self.lines.get(name, 400)
        u = self.dice.random()
        at = int(np.exp(self.dice.uniform(0, np.log(most+1)))) if u < .4 else int(self.dice.integers(1, most+1)) if u < .8 else max(1, most-int(self.dice.integers(12)))
        it = Interrupter(once)
        try:
            n, site = it.run(at, f, *a, **k)
        except Violated:
            raise
        except Exception as e:
            if it.site is None:
                self.ctx.fail('raises', f'{name} raised {type(e).__name__}: {e}')
            n, site = it.n, it.site       # an interrupt turned into another exception
        if site is None:
            self.lines[name] = max(n, 1)
            self.ctx.seen('ran to its end')
            return False
        self.lines[name] = max(self.lines.get(name, 0), n)
        self.ctx.seen('interrupted', (name,)+site, dict(call=str(name), before=list(site)))
        self.after(f, a)
        return True

    def after(self, f, a):
        pass


class LaminatePart(Interrupted, C08):
    def drive(self, rng, i):
        self.prepare(rng)
        C08.drive(self, rng, i)


class PlatePart(Interrupted, C27):
    def drive(self, rng, i):
        self.prepare(rng)
        try:
            C27.drive(self, rng, i)
        finally:
            import matplotlib.pyplot as plt
            plt.close('all')

    def after(self, f, a):
        """Modes left in a plate by whatever ran are modes."""
        o = getattr(f, '__self__', None)
        p = self.b.spec_of(o)
        if p is None or o.eigenvector is None:
            return
        x = np.asarray(o.eigenvector)
        self.ctx.check(x.ndim == 2 and len(x) == p['m']*p['n'], 'stored', f'vectors of shape {x.shape} are stored', plate=self.show(p))
        K, G = self.ref_D(p), self.ref_G(p)
        d = np.sqrt(np.diag(K))
        big = abs(oracle.pencil(K, G)[0]).max()
        for j in range(x.shape[1]):
            y = x[:, j]
            r = (G @ y-(y @ G @ y)/(y @ K @ y)*(K @ y))/d/np.linalg.norm(y*d)
            self.ctx.close(r, 0*r, 1e-5*big, 'stored', f'after an interrupt, vector {j} is not a mode', plate=self.show(p))
        self.ctx.seen('stored results after an interrupt')


class C28(Check):
    """Histories of C08 and C27 in which calls are interrupted at random lines and made again."""

    def attach(self, ctx, taps):
        self.ctx = ctx
        self.parts = [LaminatePart(), PlatePart()]
        for p in self.parts:
            p.attach(ctx, taps)

    def session(self, rng, i):
        self.parts[i % 4 == 3].session(rng, i)


# ------------------------------------------------------------------------------- C29
# bytecodes at which the interpreter may switch threads
SWITCHES = [n.startswith(('CALL', 'RESUME', 'JUMP_BACKWARD', 'BINARY_OP', 'FOR_ITER')) for n in dis.opname]


class Scheduler:
    """Runs threads one at a time and hands the turn over at chosen lines (or bytecodes) of composipy.

    Either at random lines, or once: the first thread is stopped before its k-th line until the
    others are done.  A thread that blocks (a lock held by a stopped one) loses its turn after a
    moment, so locks in the code under test do no harm."""

    def __init__(self, rng, funs):
        self.root = inside()
        self.rng = random.Random(int(rng.integers(2**31)))
        self.funs = funs
        n = len(funs)
        self.turns = [threading.Semaphore(0) for _ in funs]
        self.alive = [True]*n
        self.current = 0
        self.beat = 0
        self.counts = [0]*n
        self.errors = [None]*n
        self.sites = []
        self.done = threading.Semaphore(0)
        self.guard = threading.Lock()
        self.opcodes = self.rng.random() < .15
        self.stop_at = int(np.exp(self.rng.uniform(0, np.log(2000)))) if self.rng.random() < .6 else None
        self.p = self.rng.choice([.01, .05, .2, .5])
        self.once = self.rng.random() < .5      # lines count the first time a thread reaches them only
        if self.once:
            self.opcodes = False
            self.p = self.rng.choice([.05, .2, .5, 1.])
            if self.stop_at is not None:
                self.stop_at = self.rng.randrange(1, self.rng.choice([12, 60, 200]))
        self.met = set()

    def run(self):
        ts = [threading.Thread(target=self.body, args=(k,), daemon=True) for k in range(len(self.funs))]
        for t in ts:
            t.start()
        self.turns[0].release()
        left = len(ts)
        last, since = -1, time.time()
        while left:
            if self.done.acquire(timeout=.2):
                left -= 1
                last, since = -1, time.time()
                continue
            if self.beat != last:
                last, since = self.beat, time.time()
            elif time.time()-since > 1.5:
                self.give(self.current, blocked=True)
                last, since = -1, time.time()
        for t in ts:
            t.join()

    def give(self, me, blocked=False):
        with self.guard:
            others = [k for k in range(len(self.alive)) if self.alive[k] and k != me]
            if not others:
                return False
            self.current = self.rng.choice(others)
            self.turns[self.current].release()
        return True

    def wait(self, me):
        while True:
            self.turns[me].acquire()
            if self.current == me:
                return

    def body(self, me):
        self.wait(me)
        sys.settrace(self.tracer(me))
        try:
            self.funs[me]()
        except BaseException as e:
            self.errors[me] = e
        finally:
            sys.settrace(None)
            self.alive[me] = False
            self.give(me)
            self.done.release()

    def tracer(self, me):
        root = self.root
        kind = 'opcode' if self.opcodes else 'line'

        def local(frame, event, arg):
            if event != kind:
                return local
            self.beat += 1
            if self.current != me:      # lost its turn while it was blocked
                self.wait(me)
            if self.opcodes and not SWITCHES[frame.f_code.co_code[frame.f_lasti]]:
                return local
            if self.once:
                at = (me, frame.f_code, frame.f_lineno)
                if at in self.met:
                    return local
                self.met.add(at)
            self.counts[me] += 1
            if self.stop_at is not None:
                go = me == 0 and self.counts[0] == self.stop_at
            else:
                go = self.rng.random() < self.p
            if go and self.give(me):
                self.sites.append((me, os.path.basename(frame.f_code.co_filename), frame.f_lineno))
                self.wait(me)
            return local

        def call(frame, event, arg):
            if not frame.f_code.co_filename.startswith(root):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        return call


class Both(Judge, Plate):
    """All oracles of laminates, strength analyses and plates."""

    def spec(self, ev):
        return self.b.spec_of(ev.obj)


class C29(Check):
    """Threads that share plies, laminates, analyses and constraints."""

    def subscribe(self, taps):
        j = self.j = Both()
        j.ctx, j.b = self.ctx, self.b
        s = self.s = C08()
        s.ctx, s.b = self.ctx, self.b
        self.judges = {'z_position': j.on_z, 'Q_layup': j.on_Q, 'T_layup': j.on_T, 'xiA': j.on_xi, 'xiD': j.on_xi,
                       'calc_K_KG_D': j.judge_D, 'calc_K_KG_ABD': j.judge_ABD, 'buckling_analysis': j.judge_eig}
        self.judges.update({n: j.on_matrix for n in MATS})
        self.judges.update({n: s.on_strength for n in ('epsilon0', 'calculate_strain', 'calculate_stress', 'calculate_maxstressmargin')})

    def freeze(self, v):
        return v.copy(deep=True) if hasattr(v, 'to_numpy') else copy.deepcopy(v)

    def read(self, o, name, **kw):
        r = getattr(o, name)
        if callable(r):
            r = r(**kw)
        e = Event(type(o).__name__+'.'+name, o, (), kw, 0)
        e.result = self.freeze(r)
        self.log.append(e)

    def ops(self, rng, n):
        """A list of calls for one thread."""
        out = []
        for _ in range(n):
            u = rng.random()
            if u < .5:
                o = gen.choice(rng, self.lams)
                s = self.b.spec_of(o)
                names = MATS+['xiD']+['xiA']*('xiA' in s['lp']) if 'lp' in s else MATS+['z_position', 'Q_layup', 'T_layup', 'xiA', 'xiD']
                out.append((self.read, o, gen.choice(rng, names), {}))
            elif u < .68:
                o = gen.choice(rng, self.stg)
                lp = 'lp' in self.b.spec_of(o)['lam']
                out.append((self.read, o, 'epsilon0' if lp else gen.choice(rng, ['epsilon0', 'calculate_strain', 'calculate_stress', 'calculate_maxstressmargin']), {}))
            elif u < .86 and self.plates:
                o = gen.choice(rng, self.plates)
                name = gen.choice(rng, ['calc_K_KG_D', 'buckling_analysis', 'buckling_analysis', 'calc_K_KG_ABD'], [.3, .3, .3, .1])
                if name == 'calc_K_KG_ABD' and o.m*o.n > 9:
                    name = 'calc_K_KG_D'
                out.append((self.read, o, name, {'num_eigvalues': int(rng.integers(1, 7))} if name == 'buckling_analysis' and rng.random() < .5 else {}))
            elif u < .93:
                out.append((self.fresh, gen.choice(rng, self.specs), gen.choice(rng, MATS), None))
            else:
                t, p = expression(rng)
                while len(p) > 60:
                    t, p = expression(rng)
                out.append((self.sequence, t, p, None))
        return out

    def fresh(self, spec, name, _):
        """A laminate of its own out of the shared plies."""
        o = self.make(spec)
        self.read(o, name)

    def sequence(self, text, plies, _):
        import composipy.nastranapi as api
        self.texts.append((text, api.build_sequence(text), plies))

    def make(self, s):
        import composipy
        pl = self.mats[id(s['mats'][0])] if s['single'] else [self.mats[id(m)] for m in s['mats']]
        return self.b.remember(composipy.LaminateProperty(s['angles'], pl), s)

    def objects(self, rng):
        """Laminates, strength analyses and plates that share plies, laminates and constraints."""
        import composipy
        self.log, self.texts, self.kept = [], [], []
        self.mats = {}
        self.specs = family(rng, allow=True, iso=0, maxply=8)[:3]
        for s in self.specs:
            s['form'] = 'list'
            for m in s['mats']:
                if id(m) not in self.mats:
                    self.mats[id(m)] = self.b.material(m)
        self.lams = [self.ctx.sut(self.make, s) for s in self.specs]
        lp = gen.lp_laminate(rng, self.specs[0]['units'])
        self.lams.append(self.b.laminate(lp))
        self.stg = []
        for o in self.lams[:2]:
            x = gen.loads6(rng, self.b.spec_of(o))
            if not any(x):
                x[0] = 1.
            self.stg.append(self.b.strength(o, x))
        self.plates = []
        cons = gen.constraints(rng)
        for o in perm(rng, self.lams)[:2]:
            p = gen.plate(rng, self.b.spec_of(o), m=int(rng.integers(2, 4)), n=int(rng.integers(2, 4)), cons=cons)
            if self.j.usable(p):
                self.plates.append(self.b.remember(self.ctx.sut(
                    composipy.PlateStructure, o, p['a'], p['b'], constraints=cons, m=p['m'], n=p['n'], **dict(zip(('Nxx', 'Nyy', 'Nxy'), p['N']))), p))
        return cons

    def judge(self, events):
        for e in events:
            self.judges[e.name.split('.')[1]](e)

    def drive(self, rng, i):
        cons = self.objects(rng)
        given = copy.deepcopy(cons)
        n = int(gen.choice(rng, [2, 2, 3, 4]))
        work = [self.ops(rng, int(rng.integers(1, 5))) for _ in range(n)]
        if rng.random() < .5:       # the same calls in two threads
            work[1] = [(f, a, b, {'num_eigvalues': int(rng.integers(1, 7))} if b == 'buckling_analysis' and rng.random() < .5 else k) for f, a, b, k in work[0]]
            if rng.random() < .3:
                for k in range(2):
                    work[k] = [x for x in work[k] if x[0] == self.read][:1] or work[k]

        def body(w):
            for f, a, b, kw in w:
                f(a, b, **kw) if f == self.read else f(a, b, kw)
        sc = Scheduler(rng, [(lambda w=w: body(w)) for w in work])
        sc.run()
        for w, e in zip(work, sc.errors):
            if isinstance(e, Violated):
                raise e
            if e is not None:
                self.ctx.fail('raises', f'a thread stopped with {type(e).__name__}: {e}', calls=[(x[0].__name__, x[2]) for x in w], switches=sc.sites[:30])
        self.ctx.seen('threads run', tuple(sc.sites[:40]), dict(threads=n, switches=len(sc.sites), calls=[[str(x[2]) for x in w] for w in work]))
        self.ctx.events['switches'] += len(sc.sites)
        self.ctx.distinct.update(hash(('switch before', f, l)) for _, f, l in sc.sites)
        try:
            self.judge(self.log)
            late = len(self.log)
            # and what was left behind
            for o in self.lams:
                s = self.b.spec_of(o)
                for name in (MATS if 'lp' in s else MATS+['Q_layup', 'T_layup', 'z_position']):
                    self.ctx.sut(self.read, o, name)
            for o in self.plates:
                self.ctx.sut(self.read, o, 'calc_K_KG_D')
            self.judge(self.log[late:])
        except Violated:
            v = self.ctx.violations[-1]
            v['witness']['threads'] = repr([[(x[0].__name__, x[2]) for x in w] for w in work])
            v['witness']['switches'] = repr(sc.sites[:30])
            raise
        for text, got, want in self.texts:
            self.ctx.check([float(x) for x in got] == want, 'sequence', f'{text!r} gives {got[:30]} in a thread')
        self.ctx.check(cons == given, 'input-changed', 'the constraints given were modified')


# ------------------------------------------------------------------------------- C30
WATCHED = ('os.', 'shutil.', 'subprocess.', 'socket.', 'tempfile.', 'pty.', 'signal.', 'sqlite3.', 'urllib.', 'webbrowser.', 'glob.', 'winreg.', 'syslog.')
HARMLESS = ('os.listdir', 'os.scandir', 'os.walk', 'os.fwalk', 'os.getxattr', 'os.listxattr')


class Audit:
    """Everything the interpreter reports about files, processes, sockets and the environment while active."""

    def __init__(self):
        self.active, self.seen, self.total = False, [], 0
        sys.addaudithook(self.hook)

    def hook(self, event, args):
        if not self.active:
            return
        self.total += 1
        if event == 'open':
            mode, flags = args[1], args[2]
            if (isinstance(mode, str) and set(mode) & set('wax+')) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
                if args[0] != os.devnull:
                    self.seen.append((event, str(args[0]), str(mode)))
        elif event.startswith(WATCHED) and event not in HARMLESS:
            self.seen.append((event, repr(args)[:200]))


def freeze(v):
    """Lists, dictionaries and arrays among the arguments, as values."""
    if isinstance(v, dict):
        return ('dict',)+tuple((k, freeze(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,)+tuple(freeze(x) for x in v)
    if isinstance(v, np.ndarray):
        return ('array', v.shape, str(v.dtype), v.tobytes())
    return v if isinstance(v, (int, float, str, bool, type(None))) else id(v)


class C30(Check):
    """The state of the process before and after each call."""

    def subscribe(self, taps):
        import matplotlib
        import matplotlib.pyplot as plt
        import pandas as pd
        self.plt, self.pd, self.mpl = plt, pd, matplotlib
        self.audit = Audit()
        self.warm = False
        self.helper = Plate()
        self.helper.ctx, self.helper.b = self.ctx, self.b

    def options(self):
        """pandas options; the ply tables set display.precision, as they always did."""
        out = {}
        for k in ('display.max_rows', 'display.max_columns', 'display.width', 'display.float_format', 'mode.chained_assignment', 'display.max_colwidth',
                  'display.expand_frame_repr', 'compute.use_numexpr', 'compute.use_bottleneck', 'display.colheader_justify'):
            try:
                out[k] = self.pd.get_option(k)
            except KeyError:
                pass
        return out

    def state(self):
        import decimal
        import gc
        import locale
        import signal
        import warnings
        s = np.random.get_state()
        return {
            'numpy.random': (s[0], s[1].tobytes(), *s[2:]),
            'random': hash(random.getstate()),
            'numpy error handling': dict(np.geterr()),
            'numpy print options': {k: v for k, v in np.get_printoptions().items()},
            'warning filters': list(warnings.filters),
            'showwarning': warnings.showwarning,
            'environment': dict(os.environ),
            'working directory': os.getcwd(),
            'sys.path': list(sys.path),
            'recursion limit': sys.getrecursionlimit(),
            'switch interval': sys.getswitchinterval(),
            'excepthook': sys.excepthook,
            'stdout and stderr': (sys.stdout, sys.stderr),
            'umask': self.umask(),
            'gc': (gc.isenabled(), gc.get_threshold()),
            'threads': threading.active_count(),
            'signal handlers': tuple(signal.getsignal(k) for k in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGCHLD)),
            'locale': locale.setlocale(locale.LC_ALL),
            'decimal context': repr(decimal.getcontext()),
            'pandas options': self.options(),
            'matplotlib settings': {k: str(v) for k, v in dict.items(self.mpl.rcParams)},
            'matplotlib backend': self.mpl.get_backend(),
            'open figures': list(self.plt.get_fignums()),
        }

    def umask(self):
        with open('/proc/self/status') as f:
            return next(l for l in f if l.startswith('Umask'))

    def call(self, what, f, *a, quiet=True, plots=False, **k):
        """One call of the library, with everything around it compared."""
        import warnings
        given = freeze((a, k))
        before = self.state()
        out, err = io.StringIO(), io.StringIO()
        files = set(os.listdir('.'))
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            self.audit.seen = []
            self.audit.active = True
            try:
                r = self.ctx.sut(f, *a, **k)
            finally:
                self.audit.active = False
        after = self.state()
        self.ctx.check(not self.audit.seen, 'outside', f'{what} touched the system: {self.audit.seen[:3]}')
        self.ctx.check(set(os.listdir('.')) == files, 'files', f'{what} left files behind')
        self.ctx.check(freeze((a, k)) == given, 'arguments', f'{what} changed its arguments', was=given, now=freeze((a, k)))
        for n, v in before.items():
            if plots and n == 'open figures':
                continue
            self.ctx.check(after[n] == v, 'state', f'{what} changed {n}', was=str(v)[:300], now=str(after[n])[:300])
        if quiet:
            self.ctx.check(out.getvalue() == '' and err.getvalue() == '', 'output', f'{what} wrote {(out.getvalue()+err.getvalue())[:100]!r}')
        self.ctx.seen(what, self.mark, dict(call=what, audited=self.audit.total))
        return r

    def fresh_process(self):
        """Importing the package in another process."""
        import json
        import subprocess
        code = (f'import sys, json; sys.path[:0] = {sys.path!r}\n'
                'import numpy, scipy.sparse.linalg, scipy.optimize, pandas, matplotlib.pyplot as plt, mpl_toolkits.mplot3d, matplotlib\n'
                'from vlib.checks.schedule import C30, Audit\n'
                'c = C30()\nc.plt, c.pd, c.mpl = plt, pandas, matplotlib\n'
                'a = Audit()\nwas = c.state()\na.active = True\n'
                'import composipy, composipy.nastranapi, composipy.optimize, composipy.utils\n'
                'a.active = False\nnow = c.state()\n'
                'sys.__stdout__.write("RESULT"+json.dumps([[k for k in was if was[k] != now[k]], a.seen, a.total]))')
        r = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-c', code], capture_output=True, text=True, timeout=300)
        self.ctx.check(r.returncode == 0 and 'RESULT' in r.stdout, 'import', f'the package could not be imported: {r.stderr[-500:]}')
        before, _, found = r.stdout.partition('RESULT')
        changed, touched, n = json.loads(found)
        self.ctx.check(before == '' and r.stderr == '', 'output', f'importing wrote {(before+r.stderr)[:200]!r}')
        self.ctx.check(not changed, 'state', f'importing changed {changed}')
        self.ctx.check(not touched, 'outside', f'importing touched the system: {touched[:3]}')
        self.ctx.seen('import', n)

    def drive(self, rng, i):
        import warnings
        import composipy
        import composipy.nastranapi as api
        import composipy.optimize as opt
        if not self.warm:       # imports and font caches
            self.warm = True
            fig = self.plt.figure()
            ax = fig.add_subplot(projection='3d')
            ax.plot_surface(*np.meshgrid([0., 1.], [0., 1.]), np.zeros((2, 2)))
            self.plt.figure()
            self.plt.contour(np.random.default_rng(0).normal(size=(4, 4)))
            self.plt.legend([])
            self.plt.close('all')
        if i % 50 == 0:
            self.fresh_process()
        saved = (np.geterr(), list(warnings.filters))
        state0 = np.random.get_state(), random.getstate()
        # a caller with settings of his own
        np.random.seed(int(rng.integers(2**31)))
        random.seed(int(rng.integers(2**31)))
        popt = np.get_printoptions()
        np.set_printoptions(precision=int(rng.integers(3, 12)), linewidth=int(rng.integers(60, 200)), suppress=bool(rng.random() < .5))
        # numbers that get lost or are divided by zero may be reported or not, as the caller likes
        np.seterr(**{k: gen.choice(rng, ['ignore', 'warn']) for k in ('divide', 'over', 'under', 'invalid')})
        for _ in range(3):
            warnings.filterwarnings('ignore', message=f'setting {int(rng.integers(1000))} of the caller')
        pdo = {k: self.pd.get_option(k) for k in ('display.max_rows', 'display.max_columns', 'display.width')}
        for k in pdo:
            self.pd.set_option(k, int(rng.integers(10, 100)))
        try:
            self.calls(rng, composipy, api, opt)
        finally:
            np.set_printoptions(**popt)
            np.seterr(**saved[0])
            warnings.filters[:] = saved[1]
            for k, v in pdo.items():
                self.pd.set_option(k, v)
            np.random.set_state(state0[0])
            random.setstate(state0[1])
            self.plt.close('all')

    def calls(self, rng, composipy, api, opt):
        lam = gen.laminate(rng, allow=True, iso=0, maxply=10 if rng.random() < .9 else 100)
        m = lam['mats'][0]
        self.mark = (tuple(map(str, lam['angles'])), rnd(list(x for x in m.values() if not isinstance(x, str)), 6))
        kw = {k: v for k, v in m.items() if k != 'kind'}
        ply = self.call('OrthotropicMaterial', composipy.OrthotropicMaterial, **kw)
        for n in ('Q_0', 'name', 'v21'):
            self.call('material.'+n, getattr, ply, n)
        self.call('Invariants', ply.Invariants)
        self.call('repr', repr, ply)
        if rng.random() < .3:
            iso = self.call('IsotropicMaterial', composipy.IsotropicMaterial, 7e4, .3, 2.7e4, kw['thickness'])
            for n in ('Q_0', 'name'):
                self.call('material.'+n, getattr, iso, n)
            self.call('repr', repr, iso)
        n = len(lam['angles'])
        form = gen.choice(rng, [list, tuple, np.array], [.6, .2, .2])
        plies = ply if rng.random() < .5 else [ply]*n
        st = self.call('LaminateProperty', composipy.LaminateProperty, form(lam['angles']), plies)
        for n in perm(rng, ['A', 'B', 'D', 'ABD', 'xiA', 'xiD', 'Q_layup', 'T_layup', 'z_position'])[:4]:
            self.call('laminate.'+n, getattr, st, n)
        self.call('==', lambda: st == composipy.LaminateProperty(list(lam['angles']), ply))
        self.call('repr', repr, st)
        lp = gen.lp_laminate(rng, lam['units'])
        given = dict(lp['lp'])
        sl = self.call('LaminateProperty', composipy.LaminateProperty, given, ply)
        for n in perm(rng, ['A', 'D', 'ABD', 'B', 'xiA', 'xiD'] if 'xiA' in given else ['D', 'xiD'])[:3]:
            self.call('laminate.'+n, getattr, sl, n)
        x = gen.loads6(rng, dict(lam, mats=[m]*len(lam['angles'])))
        sg = self.call('LaminateStrength', composipy.LaminateStrength, st, *x)
        for n in ('epsilon0', 'calculate_strain', 'calculate_stress', 'calculate_maxstressmargin'):
            self.call(n, getattr(sg, n))
        p = Plate.good_plate(self.helper, rng, 3, 5)
        if rng.random() < .08:      # many functions
            q = dict(p)
            q['m'], q['n'] = gen.choice(rng, [(10, 10), (26, 3), (2, 20), (14, 8)])
            if self.helper.usable(q):
                p = q
        o = self.helper.b.plate(p)
        pk = dict(constraints=copy.deepcopy(p['cons']), m=p['m'], n=p['n'], **dict(zip(('Nxx', 'Nyy', 'Nxy'), p['N'])))
        mine = self.call('PlateStructure', composipy.PlateStructure, self.helper.b.laminate(p['lam']), p['a'], p['b'], **pk)
        cons = freeze(pk['constraints'])
        self.call('calc_K_KG_D', mine.calc_K_KG_D)
        if rng.random() < .2:
            q = dict(p, m=2, n=2)
            self.call('calc_K_KG_ABD', self.helper.b.plate(q).calc_K_KG_ABD)
        self.call('buckling_analysis', mine.buckling_analysis)
        self.call('buckling_analysis, with messages', o.buckling_analysis, quiet=False, silent=False, num_eigvalues=int(rng.integers(1, 8)))
        self.ctx.check(freeze(pk['constraints']) == cons, 'arguments', 'the constraints given to a plate were changed')
        q = dict(p, m=int(rng.integers(2, 4)), n=int(rng.integers(2, 4)))
        if self.helper.usable(q):
            self.call('buckling_analysis, few functions', self.helper.b.plate(q).buckling_analysis, num_eigvalues=int(rng.integers(1, 13)))
        t, _ = expression(rng)
        seq = self.call('build_sequence', api.build_sequence, t)
        n = len(seq)
        self.call('build_pcomp', api.build_pcomp, seq, 1, .2, z0=-.5)
        self.call('build_pcomp', api.build_pcomp, np.array(seq), list(range(1, n+1)), [.1]*n, sout=gen.choice(rng, ['FIBER', 'YES', 'NO', ['YES']*n]))
        u = rng.random()
        if u < .25:
            self.call('plot_eigenvalue', o.plot_eigenvalue, plots=True, ngridx=4, ngridy=3)
            self.plt.close('all')
        elif u < .4:
            cons = gen.constraints(rng)
            N = [-float(rng.uniform(.2, 1)), 0., 0.]
            if rng.random() < .5:
                N[int(rng.integers(1, 3))] = float(rng.uniform(-3, 3))
            mx = dict(a=300., b=200., T=1., E1=129500., E2=9370., v12=.38, G12=5240., Nxx=N[0], Nyy=N[1], Nxy=N[2], m=3, n=3, panel_constraint=cons)
            plot = bool(rng.random() < .4)
            self.call('maximize_buckling_load', opt.maximize_buckling_load, plots=plot, quiet=not plot, plot=plot, points_to_plot=5,
                      penalty=bool(rng.random() < .5), options={'maxiter': 3}, **mx)
            del mx['T']
            start = {'x0': gen.choice(rng, [[1., 0., 0.], (2., .1, 0.), np.array([.5, 0., .2])], [.6, .2, .2])} if rng.random() < .6 else {}
            stop = {'maxiter': 3 if rng.random() < .5 else 100}      # cut short, or run to its end
            self.call('minimize_panel_weight', opt.minimize_panel_weight, options=stop, **start, **mx)
            self.plt.close('all')
        # rejected calls
        for f, a in ((composipy.OrthotropicMaterial, (-1, 1, .3, 1, 1)), (composipy.LaminateProperty, ([0, 90], [ply])), (composipy.PlateStructure, (5, 1, 1)),
                     (api.build_pcomp, ([0, 90], [1], .1))):
            def refused(f=f, a=a):
                try:
                    f(*a)
                except (ValueError, KeyError):
                    return
            self.call('rejected '+f.__name__, refused)
