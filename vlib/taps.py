"""Taps: run-time instrumentation of composipy's public boundary.

install() replaces public methods, properties and functions by wrappers which call the
original and then hand an Event to the subscribed monitors.  Nothing in /repo is edited.
Monitors run with the taps muted, so that an oracle may read the objects it is given.
"""
import functools
import inspect


class Event:
    __slots__ = ('name', 'obj', 'args', 'kwargs', 'result', 'exc', 'depth')

    def __init__(self, name, obj, args, kwargs, depth):
        self.name, self.obj, self.args, self.kwargs = name, obj, args, kwargs
        self.result = self.exc = None
        self.depth = depth


class Taps:
    def __init__(self):
        self.subs = {}
        self.muted = 0
        self.depth = 0
        self.count = 0

    def on(self, name, fn):
        self.subs.setdefault(name, []).append(fn)

    def mute(self):
        return _Mute(self)

    def _run(self, name, obj, args, kwargs, call):
        if self.muted:
            return call()
        ev = Event(name, obj, args, kwargs, self.depth)
        self.depth += 1
        try:
            ev.result = call()
        finally:
            self.depth -= 1
        self.count += 1
        self.muted += 1
        try:
            for fn in self.subs.get(name, ()):
                fn(ev)
        finally:
            self.muted -= 1
        return ev.result

    def tap_class(self, cls, names):
        for name in names:
            full = f'{cls.__name__}.{name}'
            if full not in self.subs:
                continue
            orig = inspect.getattr_static(cls, name, None)
            if orig is None:
                setattr(cls, name, self._slot(full, name))   # an attribute set on the instance
            elif callable(orig):
                setattr(cls, name, self._method(full, orig))
            elif hasattr(orig, '__get__'):
                setattr(cls, name, self._prop(full, orig, cls))

    def _method(self, full, orig):
        @functools.wraps(orig)
        def wrapper(obj, *args, **kwargs):
            return self._run(full, obj, args, kwargs, lambda: orig(obj, *args, **kwargs))
        return wrapper

    def _prop(self, full, orig, cls):
        def fget(obj):
            return self._run(full, obj, (), {}, lambda: orig.__get__(obj, cls))

        def fset(obj, value):
            if not hasattr(orig, '__set__'):
                raise AttributeError(f'{full} has no setter')
            orig.__set__(obj, value)
        return property(fget, fset)

    def _slot(self, full, name):
        def fget(obj):
            if name not in obj.__dict__:
                raise AttributeError(name)
            return self._run(full, obj, (), {}, lambda: obj.__dict__[name])

        def fset(obj, value):
            obj.__dict__[name] = value
        return property(fget, fset)

    def tap_function(self, modules, name):
        """Wrap a module-level function in every module that exposes it."""
        if name not in self.subs:
            return
        orig = None
        for m in modules:
            orig = orig or getattr(m, name, None)
        if orig is None:
            return

        @functools.wraps(orig)
        def wrapper(*args, **kwargs):
            return self._run(name, None, args, kwargs, lambda: orig(*args, **kwargs))
        for m in modules:
            if getattr(m, name, None) is orig:
                setattr(m, name, wrapper)


class _Mute:
    def __init__(self, taps):
        self.taps = taps

    def __enter__(self):
        self.taps.muted += 1

    def __exit__(self, *a):
        self.taps.muted -= 1


def install(taps):
    import composipy
    import composipy.nastranapi
    import composipy.nastranapi.pcomp_generator as pg
    import composipy.optimize as opt
    taps.tap_class(composipy.OrthotropicMaterial, ['Q_0', 'Invariants', 'v21'])
    taps.tap_class(composipy.IsotropicMaterial, ['Q_0'])
    taps.tap_class(composipy.LaminateProperty,
                   ['A', 'B', 'D', 'ABD', 'xiA', 'xiD', 'z_position', 'Q_layup', 'T_layup'])
    taps.tap_class(composipy.LaminateStrength,
                   ['epsilon0', 'calculate_strain', 'calculate_stress', 'calculate_maxstressmargin'])
    taps.tap_class(composipy.PlateStructure,
                   ['calc_K_KG_D', 'calc_K_KG_ABD', 'buckling_analysis', 'plot_eigenvalue'])
    taps.tap_function([composipy.nastranapi, pg], 'build_sequence')
    taps.tap_function([composipy.nastranapi, pg], 'build_pcomp')
    taps.tap_function([opt], 'maximize_buckling_load')
    taps.tap_function([opt], 'minimize_panel_weight')
