"""Run-time instrumentation of ellipy's public API (no change to /repo is needed: everything is wrapped after import).

count    every call of a public operation made by the workload itself (not by ellipy internally) is counted
purity   additionally: deep observation of all arguments, of the configuration, of the floating-point error state and of
         the random state before and after every public operation, nested ones included (also when it raises)
history  additionally: every outermost call is recorded with deep copies of its arguments and its canonical result
none     nothing is wrapped (for operations which inspect the call stack)
"""
import copy
import functools
import importlib
import inspect
import logging
import os
import sys
import types

MODULES = ['elltool.conf.properties.Properties', 'elltool.conf.properties._ParseProp',
           'elltool.core.abasicellipsoid.ABasicEllipsoid', 'elltool.core.aellipsoid.AEllipsoid',
           'elltool.core.ellipsoid.Ellipsoid', 'elltool.core.hyperplane.Hyperplane', 'elltool.core.core',
           'gen.common.common', 'gen.dict.dict', 'gen.logging.logging', 'gras.gen.gen', 'gras.la.la',
           'gras.sym.sym', 'gras.geom.geom', 'gras.geom.ell.ell', 'gras.geom.sup.sup', 'gras.geom.tri.tri']
# these look at the frames of their callers, a wrapper in between would be observed by them
FRAME_INSPECTORS = {'throw_error', 'throw_warn', 'get_caller_name', 'get_caller_name_ext', 'get_logger'}
DUNDERS = {'__init__', '__eq__', '__ne__', '__neg__', '__str__'}
# documented to change their argument / the configuration
IN_PLACE = {'Ellipsoid.projection', 'AEllipsoid.projection'}
CONF_CHANGERS = {'init', 'set_conf_repo_mgr', 'check_settings'}

# the public operations as of the pinned commit; inner calls of other functions (say, of helpers extracted later) are
# nobody's promise and only observed as part of the operation calling them
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'api.txt')) as _f:
    API = set(_f.read().split())

COUNTS = {}
STATE = {'depth': 0, 'busy': False, 'mode': 'count', 'installed': False}
PURITY = []           # (operation, what was changed)
PURITY_STATS = {'operations': 0, 'arguments': 0, 'raised': 0}
HISTORY = []          # records of outermost calls
RAW = {}              # name -> the original callable, taking the same arguments as the wrapped one


def load_modules():
    return [importlib.import_module('ellipy.' + m) for m in MODULES]


def check_origin(repo):
    want = os.path.realpath(os.path.join(repo, 'products', 'ellipy')) + os.sep
    for mod in load_modules():
        if not os.path.realpath(mod.__file__).startswith(want):
            raise RuntimeError('%s comes from %s, not from %s' % (mod.__name__, mod.__file__, want))


# ------------------------------------------------------------------ observation of values
def observe(x, depth=0):
    """Canonical, comparable picture of a value through its public interface."""
    import numpy as np
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('obj', x.shape, tuple(observe(e, depth + 1) for e in x.flatten().tolist()))
        return ('arr', x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(observe(e, depth + 1) for e in x))
    if isinstance(x, dict):
        return ('dict', tuple((repr(k), observe(x[k], depth + 1)) for k in sorted(x, key=repr)))
    if isinstance(x, BaseException):
        return ('exc', type(x).__name__, str(x))
    if hasattr(x, 'parameters') and not isinstance(x, type):
        try:
            rest = []
            for g in ('get_abs_tol', 'get_rel_tol', 'get_n_plot_2d_points', 'get_n_plot_3d_points'):
                if hasattr(x, g):
                    f = getattr(x, g)
                    rest.append(observe(f([x], None) if 'tol' in g else f([x])))
            return (type(x).__name__, observe(tuple(x.parameters())), tuple(rest))
        except Exception:
            return (type(x).__name__, 'uninitialised')
    if callable(x):
        return ('callable', id(x))
    if isinstance(x, np.generic):
        return ('np', x.dtype.str, x.tobytes())
    return (type(x).__name__, repr(x))


def same_value(a, b, tol=1e-9):
    """Are two results the same (numbers up to rounding)?"""
    import numpy as np
    if isinstance(a, BaseException) or isinstance(b, BaseException):
        return type(a) == type(b) and str(a) == str(b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype == object:
            return all(same_value(x, y, tol) for x, y in zip(a.flatten().tolist(), b.flatten().tolist()))
        if a.dtype.kind in 'fc':
            na, nb = np.isnan(a), np.isnan(b)
            if not np.array_equal(na, nb):
                return False
            a, b = a[~na], b[~nb]
            fin = np.isfinite(a)
            if not np.array_equal(fin, np.isfinite(b)) or not np.array_equal(a[~fin], b[~fin]):
                return False
            a, b = a[fin], b[fin]
            return not a.size or bool(np.max(np.abs(a - b)) <= tol * max(1., float(np.max(np.abs(a)))))
        return np.array_equal(a, b)
    if isinstance(a, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(same_value(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return type(a) == type(b) and set(a) == set(b) and all(same_value(a[k], b[k], tol) for k in a)
    if hasattr(a, 'parameters') and not isinstance(a, type):
        return type(a) == type(b) and same_value(tuple(a.parameters()), tuple(b.parameters()), tol) and \
            observe(a)[2] == observe(b)[2]
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        return same_value(np.asarray(float(a)), np.asarray(float(b)), tol)
    if callable(a) and callable(b):
        return True
    if type(a) != type(b):
        return False
    return a == b or repr(a) == repr(b)


def environment():
    import numpy as np
    from ellipy.elltool.conf.properties.Properties import Properties
    return dict(config=observe(Properties.get_prop_dict()), errstate=repr(sorted(np.geterr().items())),
                random=observe(np.random.get_state()), printing=repr(np.get_printoptions()))


class quiet:
    """Inside, calls made by the monitor itself are not observed."""

    def __enter__(self):
        self.old = STATE['busy']
        STATE['busy'] = True

    def __exit__(self, *a):
        STATE['busy'] = self.old


# ------------------------------------------------------------------ wrapping
def _wrap(fn, name, skip_first):
    changes_conf = name.split('.')[-1].startswith('set_') or name.split('.')[-1] in CONF_CHANGERS
    in_place = name in IN_PLACE

    @functools.wraps(fn)
    def wrapper(*args, **kwargs):
        mode = STATE['mode']
        if STATE['busy']:
            return fn(*args, **kwargs)
        depth = STATE['depth']
        if depth == 0:
            COUNTS[name] = COUNTS.get(name, 0) + 1
        if mode == 'count':
            if depth:
                return fn(*args, **kwargs)
            STATE['depth'] = 1
            try:
                return fn(*args, **kwargs)
            finally:
                STATE['depth'] = 0
        if mode == 'purity':
            return purity_call(depth, args, kwargs)
        return history_call(depth, args, kwargs)

    def purity_call(depth, args, kwargs):
        if depth > 3 or depth and name not in API:
            return fn(*args, **kwargs)
        watched = args[skip_first:]
        with quiet():
            # containers are pictured as they were passed, before and after
            before = [observe(a) for a in watched], {k: observe(v) for k, v in kwargs.items()}
            env = environment() if not depth else {}      # what an inner call leaves behind shows in the outer one
        PURITY_STATS['operations'] += 1
        PURITY_STATS['arguments'] += len(before[0]) + len(before[1])
        STATE['depth'] = depth + 1
        try:
            return fn(*args, **kwargs)
        except Exception:
            PURITY_STATS['raised'] += 1
            raise
        finally:
            STATE['depth'] = depth
            with quiet():
                if not in_place:
                    for i, (a, b) in enumerate(zip(watched, before[0])):
                        now = observe(a)
                        if now != b:
                            PURITY.append((name, 'argument %d' % i, b, now))
                    for k, b in before[1].items():
                        now = observe(kwargs[k])
                        if now != b:
                            PURITY.append((name, 'argument ' + k, b, now))
                now = environment() if env else {}
                for k in env:
                    if now[k] != env[k] and not (k == 'config' and changes_conf):
                        PURITY.append((name, k, env[k], now[k]))

    def history_call(depth, args, kwargs):
        if depth or name.endswith('__init__'):
            STATE['depth'] = depth + 1
            try:
                return fn(*args, **kwargs)
            finally:
                STATE['depth'] = depth
        from ellipy.elltool.conf.properties.Properties import Properties
        rec = None
        if not changes_conf and not in_place and len(HISTORY) < 4000:
            with quiet():
                try:
                    rec = dict(name=name, args=copy.deepcopy(args), kwargs=copy.deepcopy(kwargs),
                               conf=Properties.get_prop_dict())
                except Exception:
                    rec = None
        STATE['depth'] = depth + 1
        try:
            res = fn(*args, **kwargs)
        except Exception as e:
            if rec is not None:
                rec['result'] = e.with_traceback(None)
                rec['live'] = None
                HISTORY.append(rec)
            raise
        finally:
            STATE['depth'] = depth
        if rec is not None:
            with quiet():
                try:
                    rec['result'] = copy.deepcopy(res)
                    rec['live'] = res
                    HISTORY.append(rec)
                except Exception:
                    pass
        return res
    wrapper.__wrapped_by_monitor__ = fn
    return wrapper


def install(mode):
    STATE['mode'] = mode
    if STATE['installed'] or mode == 'none':
        return
    STATE['installed'] = True
    mods = load_modules()
    replaced = {}
    for mod in mods:
        for name, obj in list(vars(mod).items()):
            if isinstance(obj, types.FunctionType) and obj.__module__ == mod.__name__ and not name.startswith('_') \
                    and name not in FRAME_INSPECTORS:
                RAW[name] = obj
                replaced[obj] = _wrap(obj, name, 0)
            elif inspect.isclass(obj) and obj.__module__ == mod.__name__:
                for attr, val in list(vars(obj).items()):
                    if attr.startswith('_') and attr not in DUNDERS:
                        continue
                    full = obj.__name__ + '.' + attr
                    if isinstance(val, staticmethod):
                        RAW[full] = val.__func__
                        setattr(obj, attr, staticmethod(_wrap(val.__func__, full, 0)))
                    elif isinstance(val, classmethod):
                        RAW[full] = val.__func__
                        setattr(obj, attr, classmethod(_wrap(val.__func__, full, 1)))
                    elif isinstance(val, types.FunctionType):
                        RAW[full] = val
                        setattr(obj, attr, _wrap(val, full, 1 if attr == '__init__' else 0))
    for mname, mod in list(sys.modules.items()):
        if mod is None or not (mname.startswith('ellipy') or mname.startswith('mon.')):
            continue
        if mname == 'mon.hooks':
            continue
        for name, obj in list(vars(mod).items()):
            if isinstance(obj, types.FunctionType) and obj in replaced:
                setattr(mod, name, replaced[obj])


def reset_environment():
    with quiet():
        from ellipy.elltool.conf.properties.Properties import Properties
        Properties.init()
        logging.disable(logging.NOTSET)
        for name in list(logging.root.manager.loggerDict):
            lg = logging.getLogger(name)
            for h in list(lg.handlers):
                lg.removeHandler(h)
    STATE['depth'] = 0
    STATE['busy'] = False
    del HISTORY[:]
    del PURITY[:]
