"""C28  Dictionary comparison is structural and reports every difference."""
import copy
import math
import numpy as np
from ellipy.gen.dict.dict import dict_compare, dict_compare_vec
from .. import gen

RULE = ('random nested dictionaries (numbers, arrays of every dtype and shape, text, lists, nested dictionaries and arrays of '
        'them) compared with copies carrying 0..3 changes of value (inside or outside the tolerance), type, size, length or '
        'keys at any level, singly and as arrays; judged by an independent recursion; distinct by content')
REQUIRED = ['equal', 'different', 'per-element', 'report', 'names', 'symmetric', 'reflexive', 'sizes', 'rejected', 'array-equal']


def big(rng):
    """Whole numbers that single or double precision cannot tell apart."""
    if rng.randint(2):
        return int(rng.randint(2 ** 53, 2 ** 63 - 10 ** 6, dtype=np.int64)) * gen.pick(rng, 1, -1)
    return int(rng.randint(2 ** 24, 2 ** 52, dtype=np.int64))


def scalar(rng):
    k = rng.randint(12)
    if k == 0:
        return int(rng.randint(-20, 21)) if rng.randint(4) else big(rng)
    if k in (1, 2):
        return float(np.round(rng.uniform(-9, 9), 6))
    if k == 3:
        return bool(rng.randint(2))
    if k in (4, 5):
        return gen.pick(rng, 'abc', '', 'Hello world', 'x1', 'abc ', 'Abc', ' abc', 'hello world', 'abcd')
    if k == 6:
        return None
    if k == 7:
        return complex(rng.randint(-3, 4), rng.randint(-3, 4))
    if k == 8:
        return np.float64(rng.randint(-5, 5))
    if k == 9:
        return np.int64(rng.randint(-5, 5))
    if k == 10:
        return gen.pick(rng, float('nan'), float('inf'), float('-inf'))
    return ('a', int(rng.randint(3)))


def array(rng):
    shp = gen.pick(rng, (), (1,), (3,), (2, 2), (1, 3), (3, 1), (0,), (2, 0), (2, 1, 3), (0, 2)) if rng.randint(20) else \
        gen.pick(rng, (300,), (12, 13), (2, 3, 2, 2))
    k = rng.randint(7)
    if k < 3:
        a = np.asarray(np.round(rng.uniform(-9, 9, shp), 6))
        if k == 1 and rng.randint(3) == 0:
            a = np.full(shp, float(rng.randint(-2, 3)))
        if k == 2 and a.size:
            a.reshape(-1)[rng.randint(a.size)] = gen.pick(rng, np.nan, np.inf, -np.inf)
        return a
    if k == 3:
        return np.asarray(rng.randint(-9, 10, shp)) if rng.randint(4) else np.asarray(rng.randint(2 ** 24, gen.pick(rng, 2 ** 52, 2 ** 63 - 10 ** 6), shp, dtype=np.int64))
    if k == 4:
        return np.asarray(rng.randint(0, 2, shp)).astype(bool)
    if k == 5:
        return np.asarray(rng.randint(0, 200, shp)).astype(np.uint8)
    return np.asarray(rng.choice(['a', 'bb', 'c'], shp))


def value(rng, depth):
    k = rng.randint(10)
    if k < 4:
        return scalar(rng)
    if k < 7:
        return array(rng)
    if k == 7:
        return [value(rng, depth - 1) for _ in range(rng.randint(0, 4) if rng.randint(12) else rng.randint(20, 90))] if depth > 0 else [scalar(rng)]
    if k == 8 and depth > 0:
        n = rng.randint(1, 4) if rng.randint(12) else rng.randint(10, 60)
        a = np.empty(n, dtype=object)
        for i in range(n):
            a[i] = dic(rng, depth - 1)
        return a
    return dic(rng, depth - 1) if depth > 0 else scalar(rng)


def dic(rng, depth):
    keys = rng.permutation(['alpha', 'beta', 'x', 'Y1', 'a_b', 'zz', 'q'])[:rng.randint(0, 6)]
    if rng.randint(15) == 0:
        keys = ['key%02d' % i for i in range(rng.randint(8, 40))]
    return {str(k): value(rng, depth) for k in keys}


# ---------------------------------------------------------------- reference
def same(x, y, at, rt):
    if type(x) is not type(y) or kind(x) != kind(y):
        return False
    if isinstance(x, dict):
        return set(x) == set(y) and all(same(x[k], y[k], at, rt) for k in x)
    if isinstance(x, np.ndarray):
        if x.shape != y.shape:
            return False
        f, g = x.flatten().tolist(), y.flatten().tolist()
        return all(number(a, b, at, rt) for a, b in zip(f, g)) if kind(x) in 'buifc' else \
            all(same(a, b, at, rt) for a, b in zip(f, g))
    if isinstance(x, list):
        return len(x) == len(y) and all(same(a, b, at, rt) for a, b in zip(x, y))
    if kind(x) in 'buifc':
        return number(x, y, at, rt)
    return x == y


def kind(x):
    if isinstance(x, (dict, list, tuple, set)) or x is None:
        return 'O'
    return np.asarray(x).dtype.kind


def number(a, b, at, rt):
    if isinstance(a, (bool, np.bool_)):
        a, b = int(a), int(b)
    if not isinstance(a, complex) and not isinstance(b, complex) and not (isinstance(a, int) and isinstance(b, int)):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
    d = abs(a - b)
    if d <= at:
        return True
    return rt is not None and 2 * d / (abs(a) + abs(b)) <= rt


# ---------------------------------------------------------------- changes
def spots(d, path=()):
    """Places (container, key) of all values of a nested structure."""
    res = []
    items = d.items() if isinstance(d, dict) else enumerate(d) if isinstance(d, list) or \
        isinstance(d, np.ndarray) and d.dtype == object and d.ndim == 1 else []
    for k, v in items:
        res.append((d, k))
        res += spots(v)
    return res


def change(rng, d, at, rt):
    """One random change in place."""
    sp = spots(d)
    if not sp or rng.randint(8) == 0:
        k = rng.randint(3)
        if k == 0 and d:
            del d[str(rng.choice(sorted(d)))]
        elif k == 1:
            d[gen.pick(rng, 'new', 'beta', 'x')] = scalar(rng)
        elif d:
            a = str(rng.choice(sorted(d)))
            d[a + '_'] = d.pop(a)
        return
    c, k = sp[rng.randint(len(sp))]
    v = c[k]
    if isinstance(c, np.ndarray):
        return change(rng, c[k], at, rt) if isinstance(c[k], dict) else None
    j = rng.randint(6)
    if isinstance(v, dict) and j < 3:
        return change(rng, v, at, rt)
    if isinstance(v, (float, np.float64)) and j < 4 or isinstance(v, np.ndarray) and v.dtype.kind == 'f' and v.size and j < 4:
        step = gen.pick(rng, 0.4 * at, 3 * at, 0.4 * (rt or 0.), 3 * (rt or 0.), 1e-3, 1.)
        if isinstance(v, np.ndarray):
            w = v.copy()
            i = rng.randint(w.size)
            w.reshape(-1)[i] += step * (max(1., abs(w.reshape(-1)[i])) if rng.randint(2) else 1.)
            c[k] = w
        else:
            c[k] = v + type(v)(step)
    elif isinstance(v, int) and not isinstance(v, bool) and j < 3:
        c[k] = v + gen.pick(rng, -1, 1)
    elif isinstance(v, np.ndarray) and v.size and j == 4:
        c[k] = gen.pick(rng, v.reshape(-1), v[..., None], v.T, v.reshape(-1)[:-1], np.reshape(v, v.shape[::-1]),
                        np.reshape(v, v.shape[::-1]))
    elif isinstance(v, np.ndarray) and v.size and j < 4 and v.dtype.kind in 'biuU':
        w = v.copy()
        i = rng.randint(w.size)
        z = w.reshape(-1)
        z[i] = (not z[i]) if v.dtype.kind == 'b' else 'b' if v.dtype.kind == 'U' else int(z[i]) + 1
        c[k] = w
    elif isinstance(v, str) and j < 4:
        c[k] = gen.pick(rng, v + ' ', ' ' + v, v.upper(), v[:-1], v[::-1], v + '\n', v + v)
    elif isinstance(v, list) and v and j < 3:
        c[k] = gen.pick(rng, v[:-1], v + [v[0]], v[::-1], v[1:])
    elif j == 5 and isinstance(v, (int, float)) and not isinstance(v, bool) and math.isfinite(v):
        c[k] = float(v) if isinstance(v, int) else gen.pick(rng, np.array(v), str(v), int(v))
    else:
        c[k] = value(rng, 1)


def near(x, y, at, rt):
    """Some difference lies too near a tolerance."""
    if type(x) is not type(y):
        return False
    if isinstance(x, dict):
        return any(near(x[k], y[k], at, rt) for k in x if k in y)
    if isinstance(x, list) or isinstance(x, np.ndarray) and x.dtype == object:
        return (isinstance(y, list) or y.ndim > 0) and any(near(a, b, at, rt) for a, b in zip(x, y))
    try:
        a, b = np.asarray(x).astype(complex), np.asarray(y).astype(complex)
    except Exception:
        return False
    if a.shape != b.shape:
        return False
    with np.errstate(all='ignore'):
        d, s = np.abs(a - b), np.abs(a) + np.abs(b)
        return bool(np.any((d != at) & (np.abs(d - at) <= 1e-12 * s)) or
                    rt and np.any((d > 0) & (np.abs(2 * d - rt * s) <= 1e-12 * s)))


def tolerances(rng):
    at = float(gen.pick(rng, 0., 0., 1e-8, 1e-3, 0.1))
    rt = gen.pick(rng, None, None, 1e-6, 1e-2)
    return at, rt


def keyed(exp_x, exp_y, at, rt):
    if set(exp_x) != set(exp_y):
        return sorted(set(exp_x) ^ set(exp_y))
    return sorted(k for k in exp_x if not same(exp_x[k], exp_y[k], at, rt))


def call(fn, x, y, at, rt, rng):
    if rt is None and rng.randint(2):
        return fn(x, y, at) if at or rng.randint(2) else fn(x, y)
    return fn(x, y, at, rt)


def single(m):
    rng = m.rng
    at, rt = tolerances(rng)
    x = dic(rng, 2)
    y = copy.deepcopy(x)
    n = int(rng.randint(0, 4) if len(x) < 8 else rng.randint(0, 30))
    for _ in range(n):
        change(rng, y, at, rt)
    if near(x, y, at, rt):
        m.trivial = True
        return
    exp = same(x, y, at, rt)
    r, rep = call(dict_compare, x, y, at, rt, rng)
    kw = dict(x=x, y=y, abs_tol=at, rel_tol=rt, report=rep)
    m.check('equal' if exp else 'different', bool(r) == exp and isinstance(r, (bool, np.bool_)), got=r, **kw)
    m.check('report', isinstance(rep, str) and (rep == '') == exp, **kw)
    if not exp:
        names = keyed(x, y, at, rt)
        m.check('names', all(k in rep for k in names), names=names, **kw)
    r2, rep2 = call(dict_compare, y, x, at, rt, rng)
    m.check('symmetric', bool(r2) == bool(r) and (rep2 == '') == (rep == ''), other=rep2, **kw)
    r3, rep3 = dict_compare(x, copy.deepcopy(x))
    m.check('reflexive', bool(r3) and rep3 == '', x=x, report=rep3)
    # arrays of the same kind agree only if their shapes do
    t = gen.pick(rng, float, int, bool, 'U1', object)
    p, q = (np.empty(s, dtype=t) if 0 in s else np.full(s, 'a' if t == 'U1' else 1, dtype=t) for s in
            (gen.pick(rng, (0,), (0, 2), (0, 3), (2, 0), (), (1,), (1, 1), (2,), (2, 0, 1)) for _ in range(2)))
    r, rep = dict_compare({'k': p}, {'k': q})
    m.check('sizes', bool(r) == (p.shape == q.shape) and (rep == '') == bool(r), got=r, report=rep, shapes=(p.shape, q.shape), kind=t)
    m.sig(x, y, at, rt)
    m.sample(x=x, y=y, abs_tol=at, rel_tol=rt, equal=bool(exp))


def arrays(m):
    rng = m.rng
    at, rt = tolerances(rng)
    shp = gen.pick(rng, (1,), (2,), (3,), (2, 2), (1, 3), (0,), (5,), (int(rng.randint(9, 41)),), (3, 7))
    n = int(np.prod(shp))
    xs = [dic(rng, 1) for _ in range(n)]
    ys = copy.deepcopy(xs)
    for y in ys:
        if rng.randint(3) == 0:
            change(rng, y, at, rt)
    if any(near(x, y, at, rt) for x, y in zip(xs, ys)):
        m.trivial = True
        return
    x, y = gen.obj_array(xs, shp), gen.obj_array(ys, shp)
    exp = np.array([same(a, b, at, rt) for a, b in zip(xs, ys)], dtype=bool)
    r, rep = call(dict_compare_vec, x, y, at, rt, rng)
    kw = dict(x=xs, y=ys, shape=shp, abs_tol=at, rel_tol=rt, report=rep)
    m.check('per-element', np.asarray(r).flatten().tolist() == exp.tolist(), got=r, expected=exp, **kw)
    m.check('report', (rep == '') == bool(exp.all()), **kw)
    for i in np.nonzero(~exp)[0]:
        part = [t for t in rep.split('\n') if t.startswith('(%d)' % i)]
        names = keyed(xs[i], ys[i], at, rt)
        m.check('names', part and all(any(k in t for t in part) for k in names), element=i, names=names, **kw)
    lx = x.tolist() if rng.randint(3) == 0 else x
    ly = y.tolist() if rng.randint(3) == 0 else y
    if n or lx is x and ly is y:
        r, rep = call(dict_compare, lx, ly, at, rt, rng)
        m.check('array-equal', bool(r) == bool(exp.all()) and (rep == '') == bool(r), got=r, **kw)
    # other sizes never agree
    z = gen.obj_array(xs + [dic(rng, 0)], (n + 1,))
    for a, b in ((x, z), (z, x)):
        r, rep = dict_compare_vec(a, b, at, rt)
        m.check('sizes', not np.any(r) and rep != '', got=r, report=rep, sizes=(np.shape(a), np.shape(b)))
        r, rep = dict_compare(a, b, at, rt)
        m.check('sizes', not r and rep != '', got=r, report=rep, sizes=(np.shape(a), np.shape(b)))
    m.sig(xs, ys, shp, at, rt)


def wrap(rng, v, other):
    """The value at a random place of a random container, together with unrelated company."""
    k = rng.randint(4)
    if k == 0:
        return {'in': v}
    if k == 1:
        return {'a': other, 'in': v, 'z': 1}
    if k == 2:
        lst = [other, v] if rng.randint(2) else [v]
        return lst
    n = int(rng.randint(1, 4))
    i = rng.randint(n)
    a = np.empty(n, dtype=object)
    for j in range(n):
        a[j] = {'in': v} if j == i else {'o': other}
    return a


def deep(m):
    """One number far down differs by an amount next to one of the tolerances: both tolerances hold at every depth."""
    rng = m.rng
    at, rt = float(gen.pick(rng, 0., 1e-9, 1e-3)), gen.pick(rng, None, 1e-6, 1e-3, 1e-2)
    size = float(rng.choice([1., 10., 1e3, 1e6]))
    x = size * float(rng.uniform(1., 2.)) * (1 if rng.randint(2) else -1)
    step = float(gen.pick(rng, 0., 0.4 * at, 3. * at, 0.4 * (rt or 0.) * abs(x), 3. * (rt or 0.) * abs(x)))
    y = x + step
    kind_ = rng.randint(5)
    if kind_ == 1:
        x, y = np.array([1., x]), np.array([1., y])
    elif kind_ == 2:
        x, y = np.array([[x, 2.], [np.inf, 0.]]), np.array([[y, 2.], [np.inf, 0.]])
    elif kind_ == 3:
        x, y = complex(x, 1.), complex(y, 1.)
    elif kind_ == 4:
        x, y = np.float64(x), np.float64(y)
    other = scalar(rng)
    seed = int(rng.randint(2 ** 31))
    depth = int(rng.randint(0, 5))
    for _ in range(depth):
        sd = int(rng.randint(2 ** 31))
        x, y = wrap(np.random.RandomState(sd), x, other), wrap(np.random.RandomState(sd), y, copy.deepcopy(other))
    x, y = {'top': x, 'n': other}, {'top': y, 'n': copy.deepcopy(other)}
    if near(x, y, at, rt):
        m.trivial = True
        return
    exp = same(x, y, at, rt)
    kw = dict(x=x, y=y, abs_tol=at, rel_tol=rt)
    for a, b in ((x, y), (y, x)):
        r, rep = call(dict_compare, a, b, at, rt, rng)
        m.check('equal' if exp else 'different', bool(r) == exp, got=r, report=rep, **kw)
        m.check('report', (rep == '') == exp, report=rep, **kw)
        if not exp:
            m.check('names', 'top' in rep, report=rep, **kw)
    r, rep = dict_compare_vec(np.array([x, x]), np.array([x, y]), at, rt)
    m.check('per-element', np.asarray(r).flatten().tolist() == [True, exp], got=r, report=rep, **kw)
    m.sig(x, y, at, rt, seed)


def rejected(m):
    d = dic(m.rng, 1)
    for bad in (1, 'a', None, (d,), [1, 2], ['a'], np.array([1., 2.]), {1, 2}, [[1]]):
        m.raises('rejected', lambda: dict_compare(bad, d), 'wrongInput', kinds=(ValueError,), bad=bad)
        m.raises('rejected', lambda: dict_compare(d, bad), 'wrongInput', kinds=(ValueError,), bad=bad)
    for bad in (-1., None):
        m.raises('rejected', lambda: dict_compare({'a': 1.}, {'a': 2.}, bad), 'wrongInput', kinds=(ValueError,), bad=bad)
    m.raises('rejected', lambda: dict_compare({'a': 1.}, {'a': 2.}, 0., -1.), 'wrongInput', kinds=(ValueError,))
    m.sig(d)


CASES = [('single', single, 700, 15000), ('arrays', arrays, 300, 6000), ('deep', deep, 400, 12000), ('rejected', rejected, 3, 10)]
