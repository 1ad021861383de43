"""C34  Results depend only on arguments, never on call history."""
import copy
import logging
import os
import pickle
import struct
import sys

import numpy as np
from ellipy.elltool.core.abasicellipsoid.ABasicEllipsoid import ABasicEllipsoid
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
from .. import hooks
from .. import gen
from . import workloads

RULE = ('recorded histories of outermost public calls (arguments copied at call time) of the workloads of the other '
        'properties; a random choice of calls is repeated in another order under the recorded configuration before and '
        'after all earlier results were overwritten, and evaluated in a process in which no call was ever made; every '
        'repetition has to give the recorded result or error; distinct by workload case and content')
REQUIRED = ['like-a-fresh-object', 'result-independent-of-arguments', 'same-when-repeated', 'same-after-overwriting', 'same-in-fresh-process', 'same-on-the-same-objects']
HOOK_MODE = 'history'
TOL = 1e-7
PASS_THROUGH = {'try_treat_as_real',           # gives a look at its argument
                'ParsePropMixin.parse_prop', 'Properties.parse_prop'}   # hands unknown options back as they are
LIVE_CONFIG = {'Properties.get_conf_repo_mgr'}
SETTABLE = ['is_verbose', 'n_plot_2d_points', 'n_plot_3d_points', 'n_time_grid_points', 'abs_tol', 'rel_tol']


def has_callable(x, depth=0):
    if isinstance(x, (list, tuple)):
        return any(has_callable(e, depth + 1) for e in x)
    if isinstance(x, dict):
        return any(has_callable(e, depth + 1) for e in x.values())
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(has_callable(e, depth + 1) for e in x.flatten().tolist())
    return callable(x) and not isinstance(x, type)


def configure(conf):
    Properties.init()
    for k in SETTABLE:
        getattr(Properties, 'set_' + k)(conf[k])


def evaluate(rec, args=None):
    """The recorded call once more, on fresh copies of the recorded arguments unless told otherwise."""
    args, kwargs = (copy.deepcopy(rec['args']), copy.deepcopy(rec['kwargs'])) if args is None else args
    with hooks.quiet():
        configure(rec['conf'])
        logging.disable(logging.CRITICAL)
        try:
            return hooks.RAW[rec['name']](*args, **kwargs)
        except Exception as e:
            return e.with_traceback(None)
        finally:
            logging.disable(logging.NOTSET)


def scribble(x, depth=0):
    """The caller overwrites a result it got."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for e in x.flatten().tolist():
                scribble(e, depth + 1)
        if not x.flags.writeable or not x.size:
            return
        if x.dtype.kind == 'b':
            x[...] = ~x
        elif x.dtype == object:
            x[...] = None
        elif x.dtype.kind in 'iufc':
            x[...] = 77
    elif isinstance(x, ABasicEllipsoid):
        try:
            with hooks.quiet():
                a, b = x.parameters()
                a[...] = 77
                if isinstance(x, Ellipsoid) and a.size > 1:
                    Ellipsoid.projection([x], np.eye(a.size)[:, :1])
        except Exception:
            pass
    elif isinstance(x, (list, tuple)):
        for e in x:
            scribble(e, depth + 1)
        if isinstance(x, list):
            x.append('scribble')
            x[0] = 'scribble'
    elif isinstance(x, dict):
        for e in list(x.values()):
            scribble(e, depth + 1)
        x.clear()
        x['scribble'] = 1


# ------------------------------------------------------------------ a process in which nothing was ever computed
class Zygote:
    def __init__(self):
        r1, self.w = os.pipe()
        self.r, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.w)
            os.close(self.r)
            try:
                while True:
                    data = receive(r1)
                    if data is None:
                        break
                    child = os.fork()
                    if child == 0:
                        try:
                            out = pickle.dumps([evaluate(rec) for rec in pickle.loads(data)])
                        except BaseException:
                            out = pickle.dumps(None)
                        send(w2, out)
                        os._exit(0)
                    _, status = os.waitpid(child, 0)
                    if status:
                        send(w2, pickle.dumps(None))
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)

    def __call__(self, recs):
        send(self.w, pickle.dumps(recs))
        return pickle.loads(receive(self.r))


def send(fd, data):
    data = struct.pack('<q', len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def receive(fd):
    def exactly(n):
        parts = []
        while n:
            d = os.read(fd, min(n, 1 << 20))
            if not d:
                return None
            parts.append(d)
            n -= len(d)
        return b''.join(parts)
    head = exactly(8)
    return None if head is None else exactly(struct.unpack('<q', head)[0])


ZYGOTE = []


def prepare():
    """Called by each worker before the first case."""
    ZYGOTE.append(Zygote())


def make(pid, name, func):
    def case(m):
        if not ZYGOTE:
            prepare()
        rng = m.rng
        sub = workloads.run(m, pid, name, func)
        recs = [r for r in hooks.HISTORY if 'result' in r and r['name'] not in LIVE_CONFIG]
        m.note('recorded calls', len(recs))
        m.trivial = not recs
        if not recs:
            return
        limit = 25 if m.tier == 'quick' else 80
        pure = [r for r in recs if not has_callable((r['args'], r['kwargs']))]

        def choose(rs, k):
            return [rs[i] for i in rng.permutation(len(rs))[:k]]

        def verdict(mech, rec, got):
            m.check(mech, hooks.same_value(rec['result'], got, TOL), operation=rec['name'], args=rec['args'],
                    kwargs=rec['kwargs'], recorded=rec['result'], now=got)
        for rec in choose(recs, limit):
            verdict('same-when-repeated', rec, evaluate(rec))
        for rec in choose(pure, max(3, limit // 4)):
            # twice on the very same argument objects
            args = copy.deepcopy(rec['args']), copy.deepcopy(rec['kwargs'])
            verdict('same-on-the-same-objects', rec, copy.deepcopy(evaluate(rec, args)))
            res = evaluate(rec, args)
            verdict('same-on-the-same-objects', rec, res)
            # and writing into the result does not reach the arguments
            if rec['name'] in PASS_THROUGH:
                continue
            parts = res if isinstance(res, (tuple, list)) else (res,)
            if any(r is a for r in parts for a in args[0] + tuple(args[1].values())):
                continue                     # handed back as it is
            with hooks.quiet():
                before = hooks.observe(args)
                scribble(res)
                now = hooks.observe(args)
            m.check('result-independent-of-arguments', before == now, operation=rec['name'], args=rec['args'],
                    kwargs=rec['kwargs'])
        fresh = []
        for rec in choose(pure, 4 if m.tier == 'quick' else 12):
            one = {k: rec[k] for k in ('name', 'args', 'kwargs', 'conf')}
            try:
                pickle.dumps(one)
                pickle.dumps(rec['result'])
            except Exception:
                continue
            fresh.append((rec, one))
        for rec, one in fresh:
            got = ZYGOTE[0]([one])
            if got is None:
                m.note('unanswered in fresh process')
                continue
            verdict('same-in-fresh-process', rec, got[0])
        for rec in hooks.HISTORY:
            if rec.get('live') is not None and rec['name'] not in LIVE_CONFIG:
                scribble(rec['live'])
        for rec in choose(pure, limit):
            got = evaluate(rec)
            verdict('same-after-overwriting', rec, got)
            scribble(got)
        m.sigs += ['%s/%s' % (pid, s) for s in sub.sigs] or [repr((pid, name, m.index))]
        m.sample(workload='%s/%s' % (pid, name), recorded=len(recs), repeated=min(limit, len(recs)))
    return case


# ------------------------------------------------------------------ long-lived objects
def fresh_copy(x):
    """An object of the same data and settings without any history."""
    tol = dict(abs_tol=float(type(x).get_abs_tol([x], None).flatten()[0]), rel_tol=float(type(x).get_rel_tol([x], None).flatten()[0]))
    a, b = x.parameters()
    if isinstance(x, Hyperplane):
        return Hyperplane(np.array(a).flatten(), float(np.array(b).flatten()[0]), **tol)
    return Ellipsoid(a, b, n_plot_2d_points=int(Ellipsoid.get_n_plot_2d_points([x]).flatten()[0]),
                     n_plot_3d_points=int(Ellipsoid.get_n_plot_3d_points([x]).flatten()[0]), **tol)


def query(rng, objs, ells):
    """(name, function of the objects) of one operation which changes nothing."""
    n = int(np.size(objs[0].parameters()[0]))
    l = gen.dirs(rng, n, rng.randint(1, 4))
    x = gen.vec(rng, n)
    if not ells:
        return gen.pick(rng, ('contains', lambda o: Hyperplane.contains(o, x)), ('parallel', lambda o: Hyperplane.is_parallel(o, o[0])),
                        ('eq', lambda o: Hyperplane.eq(o, o[0])), ('ne', lambda o: Hyperplane.ne(o, o[-1])),
                        ('neg', Hyperplane.uminus), ('dict', lambda o: Hyperplane.to_dict(o)[0]), ('str', lambda o: [str(e) for e in o]),
                        ('dimension', Hyperplane.dimension), ('copy', Hyperplane.get_copy), ('empty', Hyperplane.is_empty))
    b = gen.orth(rng, n)[:, :rng.randint(1, n + 1)]
    k = int(rng.randint(3, 30))
    qs = [('degenerate', Ellipsoid.is_degenerate), ('volume', Ellipsoid.volume), ('trace', Ellipsoid.trace),
          ('dimension', lambda o: Ellipsoid.dimension(o, return_rank=True)), ('min', Ellipsoid.min_eig), ('max', Ellipsoid.max_eig),
          ('eq', lambda o: Ellipsoid.is_equal(o, o[0], True)), ('ne', lambda o: Ellipsoid.ne(o, o[-1])), ('neg', Ellipsoid.uminus),
          ('projection', lambda o: Ellipsoid.get_projection(o, b)), ('rho', lambda o: Ellipsoid.rho(o, l[:, :1])),
          ('rho-one', lambda o: Ellipsoid.rho([o[0]], l)), ('dict', lambda o: Ellipsoid.to_dict(o, True)[0]),
          ('str', lambda o: [str(e) for e in o]), ('copy', Ellipsoid.get_copy), ('sum', lambda o: Ellipsoid.minksum_ea(o, l)),
          ('sum-in', lambda o: Ellipsoid.minksum_ia(o, l)), ('bigger', lambda o: o[0].is_bigger(o[-1])), ('polar', Ellipsoid.polar),
          ('internal', lambda o: Ellipsoid.is_internal(o, x.reshape(-1, 1), 'u')), ('empty', Ellipsoid.is_empty)]
    if n in (2, 3):
        qs += [('boundary', lambda o: o[0].get_boundary(k)), ('boundary-own', lambda o: o[0].get_boundary(return_grid=True)),
               ('rho-boundary', lambda o: o[0].get_rho_boundary(k)), ('factor', lambda o: o[-1].get_boundary_by_factor(0.5))]
    return gen.pick(rng, *qs)


def attempt(f, *args):
    try:
        return f(*args)
    except Exception as e:
        return e.with_traceback(None)


def live(m):
    """Objects questioned and changed again and again answer like objects built anew from their data."""
    rng = m.rng
    n = gen.pick(rng, 2, 2, 3, 3, 4, 1, 6)
    ells = rng.randint(4) > 0
    if ells:
        pool = [Ellipsoid(0.1 * gen.center(rng, n), gen.psd(rng, n) if rng.randint(3) == 0 else gen.spd(rng, n), **dict(
            gen.settings(rng), n_plot_2d_points=int(rng.randint(5, 30)), n_plot_3d_points=int(rng.randint(5, 30)))) for _ in range(3)]
    else:
        pool = [Hyperplane(gen.nzvec(rng, n), float(gen.pick(rng, 0., rng.standard_normal())), **gen.settings(rng, True)) for _ in range(3)]
    trace = []
    for step in range(12 if m.tier == 'quick' else 30):
        if ells and rng.randint(4) == 0:
            # all objects of one dimension again after an in-place projection
            k = int(rng.randint(1, pool[0].parameters()[0].size + 1))
            b = gen.orth(rng, pool[0].parameters()[0].size)[:, :k]
            ref = [fresh_copy(o) for o in pool]
            with hooks.quiet():
                Ellipsoid.projection(ref, b)
            Ellipsoid.projection(gen.pick(rng, pool, gen.obj_array(pool, (3,))), b)
            trace.append('project %d' % k)
            m.check('like-a-fresh-object', hooks.same_value(pool, ref, TOL), trace=trace, got=pool, expected=ref)
            continue
        if ells and rng.randint(10) == 0:
            pool = [pool[0]] + [Ellipsoid(pool[0].parameters()[0], gen.spd(rng, pool[0].parameters()[0].size)), pool[2]]
        objs = [pool[i] for i in rng.permutation(3)[:rng.randint(1, 4)]]
        name, f = query(rng, objs, ells)
        trace.append(name)
        with hooks.quiet():
            built = [fresh_copy(o) for o in objs]
            exp = attempt(f, built)
        got = attempt(f, objs)
        m.check('like-a-fresh-object', hooks.same_value(exp, got, TOL), trace=trace, objects=[o.parameters() for o in objs],
                got=got, expected=exp)
        if rng.randint(2) and not isinstance(got, Exception):
            with hooks.quiet():
                scribble(got)
    m.sig(n, [o.parameters() for o in pool], trace)
    m.sample(steps=trace)


CASES = workloads.cases(make, 8, 100) + [('live', live, 150, 4000)]
