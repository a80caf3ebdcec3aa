"""Common parts of the checks."""
import numpy as np

from ..gen import Builder


class Check:
    def attach(self, ctx, taps):
        self.ctx, self.taps = ctx, taps
        self.b = Builder(ctx)
        self.subscribe(taps)

    def subscribe(self, taps):
        pass

    def session(self, rng, i):
        self.b.reg.clear()
        self.drive(rng, i)


def arr(ctx, v, shape, what):
    """The result as a float array of the documented shape."""
    try:
        a = np.array(v, dtype=float)
    except Exception as e:
        ctx.fail('not-numeric', f'{what}: {type(e).__name__} {e}', value=v)
    ctx.check(a.shape == shape, 'shape', f'{what} has shape {a.shape}, not {shape}')
    return a


def perm(rng, seq):
    seq = list(seq)
    return [seq[i] for i in rng.permutation(len(seq))]
