"""Execution context of one check: counters, verdict recording, calls into the code under test.

A check runs many *sessions* (a workload driving the real composipy code).  While a session
runs, *monitors* observe every call at the public boundary of composipy (see taps.py) and
compare what they see with an oracle (see oracle.py).  What they observe is counted here.
"""
import collections
import traceback

import numpy as np


DISTINCT = 300000       # distinct observations counted per worker, at most


class Violated(Exception):
    """Raised after a violation was recorded, to leave the session."""


class Ctx:
    def __init__(self):
        self.events = collections.Counter()      # observations, by kind
        self.distinct = set()                    # hashed signatures of distinct observations
        self.samples = []
        self.violations = []                     # dicts: key, what, witness
        self.case = None                         # (workload, index)
        self.nontrivial = 0

    # -- observations ---------------------------------------------------------------
    def seen(self, kind, signature=None, sample=None):
        self.events[kind] += 1
        if signature is not None and len(self.distinct) < DISTINCT:
            self.distinct.add(hash((kind, signature)))
        if sample is not None and len(self.samples) < 4:
            self.samples.append({'observed': kind, **sample})

    def fail(self, key, what, **witness):
        if len(self.violations) < 20:
            self.violations.append({
                'key': key, 'what': what, 'case': self.case,
                'witness': {k: _show(v) for k, v in witness.items()}})
        raise Violated(f'{key}: {what}')

    def check(self, ok, key, what, **witness):
        if not bool(ok):
            self.fail(key, what, **witness)

    def close(self, got, want, tol, key, what, **witness):
        """|got - want| <= tol elementwise (tol absolute, scalar or array)."""
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape:
            self.fail(key, what + ' (shape)', got=got, want=want, **witness)
        bad = ~(np.abs(got - want) <= tol)
        bad &= ~((got == want) | (np.isnan(got) & np.isnan(want)))
        if bad.any():
            self.fail(key, what, got=got, want=want,
                      worst=float(np.nanmax(np.abs(got - want)[bad])) if np.isfinite(
                          np.abs(got - want)[bad]).any() else 'nan', tol=tol, **witness)

    # -- calls into the code under test -----------------------------------------------
    def sut(self, fn, *args, **kwargs):
        """Call with input inside the documented domain: it has to return."""
        try:
            return fn(*args, **kwargs)
        except Violated:
            raise
        except MemoryError:
            raise
        except Exception as e:
            self.fail('raises', f'{getattr(fn, "__name__", fn)} raised {type(e).__name__}: {e}',
                      args=args, kwargs=kwargs, trace=traceback.format_exc()[-1500:])

    def sut_rejects(self, types, fn, *args, **kwargs):
        """Call with input outside the domain: it has to raise one of `types`."""
        try:
            r = fn(*args, **kwargs)
        except Violated:
            raise
        except types:
            return
        except Exception as e:
            self.fail('wrong-exception', f'{getattr(fn, "__name__", fn)} raised {type(e).__name__} ({e}), '
                      f'not {types}', args=args, kwargs=kwargs)
        self.fail('accepted', f'{getattr(fn, "__name__", fn)} accepted an invalid input',
                  args=args, kwargs=kwargs, result=r)


def _show(v):
    if isinstance(v, np.ndarray):
        return np.array2string(v, precision=12, threshold=60)
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    r = repr(v)
    return r if len(r) < 2500 else r[:2500] + '...'


def rnd(v, digits=9):
    """Signature of a number or array, insensitive to the last digits."""
    return tuple(float(f'{x:.{digits}g}') for x in np.ravel(np.asarray(v, dtype=float)))
