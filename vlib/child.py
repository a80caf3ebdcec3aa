"""Runs sessions of some checks under the settings it is given (see checks/settings.py)."""
import json
import os
import sys


def main():
    job = json.loads(sys.argv[1])
    inside = job['inside']
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    if sys.path[1:2] == [os.path.join(here, 'vlib')]:
        del sys.path[1]
    if 'first' in inside:
        __import__(inside['first'])
    settings(inside)
    import run
    from vlib.checks import registry
    out, events, count = [], {}, 0
    for pid, start, n in job['parts']:
        check, ctx, taps = run.load(pid, registry.CHECKS[pid])
        settings(inside)
        known = run.known_keys(pid)
        for k in range(n):
            run.run_case(check, ctx, job['seed'], pid, start+k)
        out += [dict(v, pid=pid) for v in ctx.violations if v['key'] not in known]
        for k, v in ctx.events.items():
            events[k] = events.get(k, 0)+v
        count += taps.count
        taps.subs, taps.muted = {}, 1
    sys.__stdout__.flush()
    os.write(1, ('RESULT'+json.dumps(dict(violations=out, events=events, taps=count), default=str)).encode())


def settings(s):
    """What the program of a caller may have set."""
    import numpy as np
    import pandas as pd
    if 'cwd' in s:
        os.chdir(os.environ['VERIF_SCRATCH'] if s['cwd'] == 'scratch' else s['cwd'])
    if 'gc' in s:
        import gc
        gc.disable() if s['gc'] == 'off' else gc.set_threshold(5, 2, 2)
    if 'switch' in s:
        sys.setswitchinterval(s['switch'])
    if 'decimal' in s:
        import decimal
        decimal.getcontext().prec = s['decimal']
    if 'locale' in s:
        import locale
        try:
            locale.setlocale(locale.LC_ALL, s['locale'])
        except locale.Error:
            pass
    if 'errstate' in s:
        np.seterr(all=s['errstate'])
    if 'seed' in s:
        import random
        np.random.seed(s['seed'])
        random.seed(s['seed'])
    if 'ion' in s or 'style' in s:
        import matplotlib.pyplot as plt
        if 'style' in s:
            plt.style.use(s['style'])
        if 'ion' in s:
            plt.ion()
    if 'printoptions' in s:
        np.set_printoptions(**s['printoptions'])
    for k, v in s.get('pandas', {}).items():
        try:
            pd.set_option(k, '{:.2f}'.format if v == 'two' else v)
        except (KeyError, ImportError):
            pass


if __name__ == '__main__':
    main()
