"""C27  Tolerance comparison of arrays is exact and explains itself."""
import math
from fractions import Fraction
import numpy as np
from ellipy.gen.common.common import abs_rel_compare
from .. import gen

RULE = ('pairs of arrays of 0..3 dimensions and every numeric dtype, equal, perturbed around the tolerances, with NaN and '
        'infinities, with and without relative tolerance, three norms; judged element by element; distinct by content')
REQUIRED = ['equal', 'abs-diff', 'rel-diff', 'rel-triggered', 'report', 'symmetric', 'reflexive', 'rejected', 'non-finite', 'dtype']
NORMS = {'abs': np.abs, 'double': lambda x: 2. * np.abs(x), 'rows': lambda x: np.sqrt(np.sum(np.abs(x) ** 2, axis=-1))}


def ref(a, b, at, rt, norm):
    """Elementwise verdict in plain Python; returns (equal, abs_diff, triggered, rel_diff) or None for mismatching places."""
    a, b = np.atleast_1d(a), np.atleast_1d(b)
    cplx = 'c' in (a.dtype.kind, b.dtype.kind)
    conv = complex if cplx else float
    if a.size == 0:
        return True, None if norm != 'rows' or 0 in a.shape[:-1] else 0., False, None
    if norm == 'rows':
        rows = list(zip(a.reshape(-1, a.shape[-1]).tolist(), b.reshape(-1, a.shape[-1]).tolist()))
    else:
        rows = [([x], [y]) for x, y in zip(a.reshape(-1).tolist(), b.reshape(-1).tolist())]
    items = []
    for ra, rb in rows:
        xs = []
        for x, y in zip(ra, rb):
            x, y = conv(x), conv(y)
            fin = [not (cnan(z) or cinf(z)) for z in (x, y)]
            if not all(fin):
                if cnan(x) != cnan(y) or cinf(x) != cinf(y) or (cinf(x) and x != y):
                    return None
                x = y = conv(0)
            xs.append((x, y))
        w = 2. if norm == 'double' else 1.
        n = lambda z: w * math.sqrt(sum(abs(t) ** 2 for t in z)) if len(z) > 1 else w * abs(z[0]) if z else 0.
        items.append((n([x - y for x, y in xs]), n([x for x, _ in xs]), n([y for _, y in xs])))
    if not items:
        return True, None, False, None
    big = max(t[0] for t in items)
    over = [t for t in items if t[0] > at]
    if not over:
        return True, big, False, None
    if rt is None:
        return False, big, False, None
    rel = max(2. * d / (p + q) for d, p, q in over)
    return rel <= rt, big, True, rel, [d for d, p, q in over if 2. * d / (p + q) >= rel * (1 - 1e-12)]


def cnan(z):
    return math.isnan(z.real) or math.isnan(z.imag) if isinstance(z, complex) else math.isnan(z)


def cinf(z):
    return not cnan(z) and (math.isinf(z.real) or math.isinf(z.imag) if isinstance(z, complex) else math.isinf(z))


def data(rng):
    shp = gen.pick(rng, (), (1,), (4,), (7,), (2, 3), (3, 1), (2, 2, 3), (0,), (0, 3), (1, 1), (2, 1, 2, 2)) if rng.randint(40) else \
        gen.pick(rng, (500,), (5000,), (60, 70), (10, 11, 12), (3, 4, 5, 6))
    kind = gen.pick(rng, 'f', 'f', 'f', 'i', 'u', 'b', 'c', 's')
    if kind == 'f':
        a = rng.standard_normal(shp) * 10. ** rng.randint(-6, 7)
        a = np.asarray(a).astype(gen.pick(rng, 'f8', 'f8', 'f4'))
    elif kind == 'i':
        a = np.asarray(rng.randint(-120, 121, shp)).astype(gen.pick(rng, 'i1', 'i2', 'i4', 'i8'))
    elif kind == 'u':
        a = np.asarray(rng.randint(0, 250, shp)).astype(gen.pick(rng, 'u1', 'u2', 'u4'))
    elif kind == 'b':
        a = np.asarray(rng.randint(0, 2, shp)).astype(bool)
    elif kind == 'c':
        a = np.asarray(rng.standard_normal(shp) + 1j * rng.standard_normal(shp))
    else:
        a = np.asarray(np.round(rng.uniform(-4, 4, shp)))
    return a, kind


def other(rng, a, kind, at, rt):
    b = np.array(a, copy=True)
    if b.size == 0 or rng.randint(6) == 0:
        return b
    k = rng.randint(6)
    n = rng.randint(1, b.size + 1)
    flat = b.reshape(-1)
    for i in rng.choice(b.size, n, replace=False):
        if kind in 'iu':
            lim = np.iinfo(b.dtype)
            flat[i] = int(np.clip(int(flat[i]) + rng.randint(-3, 4), lim.min, lim.max)) if k else \
                rng.randint(max(lim.min, -120), min(lim.max, 250) + 1)
        elif kind == 'b':
            flat[i] = ~flat[i]
        else:
            f = gen.pick(rng, 0.3, 0.9, 1.1, 3., 30.)
            if k < 3:
                flat[i] += f * max(at, 1e-12) * rng.choice([-1, 1])
            elif k < 5 and rt:
                flat[i] *= 1 + f * rt * rng.choice([-1, 1])
            else:
                flat[i] = rng.standard_normal()
    return b


def spoil(rng, a, b):
    """Non-finite entries: at the same or at different places."""
    if a.dtype.kind not in 'fc' or a.size == 0:
        return a, b, False
    fa, fb = a.reshape(-1), b.reshape(-1)
    if a.size > 1 and rng.randint(5) == 0:           # the same values at other places
        i, j = rng.choice(a.size, 2, replace=False)
        v, w = gen.pick(rng, (np.nan, 1.), (complex(1, np.inf), 1.), (complex(1, np.inf), complex(1, -np.inf)), (complex(np.inf, 1), complex(np.inf, 2))) \
            if a.dtype.kind == 'c' else gen.pick(rng, (np.nan, 1.), (np.inf, 2.), (-np.inf, 0.), (np.inf, -np.inf),
                                                                 (np.nan, np.inf))
        fa[[i, j]], fb[[i, j]] = (v, w), (w, v)
        return a, b, True
    for _ in range(rng.randint(1, 4)):
        i = rng.randint(a.size)
        v = gen.pick(rng, np.nan, np.inf, -np.inf)
        if a.dtype.kind == 'c' and rng.randint(3):
            v = complex(gen.pick(rng, 1., 2., -1., np.inf, -np.inf), gen.pick(rng, np.inf, -np.inf, 1., 0., np.inf))
        k = rng.randint(6)
        if k:
            fa[i] = fb[i] = v
        elif rng.randint(2):
            fa[i] = v
        else:
            fa[i], fb[i] = v, gen.pick(rng, np.nan, np.inf, -np.inf) if a.dtype.kind != 'c' else \
                complex(gen.pick(rng, 1., 2., np.inf, -np.inf, np.nan), gen.pick(rng, np.inf, -np.inf, 1.))
    return a, b, True


def near(a, b, at, rt, norm):
    """True if some difference lies too near a tolerance for rounding to be ignored."""
    a, b = np.atleast_1d(a).astype(complex), np.atleast_1d(b).astype(complex)
    with np.errstate(all='ignore'):
        ok = np.isfinite(a) & np.isfinite(b)
        a, b = np.where(ok, a, 0), np.where(ok, b, 0)
        f = NORMS[norm]
        d, s = np.atleast_1d(f(a - b)), np.atleast_1d(f(a) + f(b))
    if d.size == 0:
        return False
    m = np.max(s)
    return bool(np.any((np.abs(d - at) <= 1e-12 * max(1e-300, m)) & ~((d == at) & (at == 0))) or
                rt is not None and np.any(np.abs(2 * d - rt * s) <= 1e-12 * s * (s > 0) * (d > 0)))


def compare(m):
    rng = m.rng
    a, kind = data(rng)
    at = float(gen.pick(rng, 0., 1e-9, 1e-6, 1e-3, 0.5, 3.))
    rt = gen.pick(rng, None, None, 0., 1e-9, 1e-6, 1e-2, 0.5)
    b = other(rng, a, kind, at, rt)
    odd = False
    if rng.randint(4) == 0:
        a, b, odd = spoil(rng, a, b)
    if kind in 'iuf' and rng.randint(6) == 0:
        b = b.astype(gen.pick(rng, 'f8', 'c16') if kind == 'f' and not odd else 'f8')
    norm = gen.pick(rng, 'abs', 'abs', 'double', 'rows')
    if norm == 'rows' and a.ndim == 0:
        norm = 'abs'
    if near(a, b, at, rt, norm):
        m.trivial = True
        return
    r = abs_rel_compare(a, b, at, rt, NORMS[norm])
    kw = dict(a=a, b=b, abs_tol=at, rel_tol=rt, norm=norm, result=r)
    if not m.check('equal', len(r) == 6, **kw):
        return
    eq, ad, trig, rd, amr, rep = r
    e = ref(a, b, at, rt, norm)
    if e is None:
        m.check('non-finite', not eq and rep != '' and not trig, **kw)
    else:
        m.check('equal', bool(eq) == e[0], expected=e, **kw)
        if odd:
            m.check('non-finite', bool(eq) == e[0], expected=e, **kw)
        if a.dtype.kind not in 'f' or b.dtype != a.dtype:
            m.check('dtype', bool(eq) == e[0], expected=e, **kw)
        tol = 1e-12
        if e[1] is None:
            m.check('abs-diff', np.size(ad) == 0, **kw)
        else:
            m.check('abs-diff', np.ndim(ad) == 0 and abs(ad - e[1]) <= tol * max(e[1], 1e-300), expected=e, **kw)
        m.check('rel-triggered', bool(trig) == e[2], expected=e, **kw)
        if e[2]:
            m.check('rel-diff', np.ndim(rd) == 0 and abs(rd - e[3]) <= 1e-11 * max(e[3], 1e-300), expected=e, **kw)
            # the absolute difference reported next to it is the one at that place
            m.check('rel-diff', 0 < amr <= ad and any(abs(amr - d) <= 1e-12 * d for d in e[4]), expected=e, **kw)
        else:
            m.check('rel-diff', np.size(rd) == 0, **kw)
        if not e[0]:
            m.check('report', ('relative' in rep) == e[2] and '%.17g' % (rd if e[2] else ad) in rep, expected=e, **kw)
    m.check('report', isinstance(rep, str) and (rep == '') == bool(eq), **kw)
    s = abs_rel_compare(b, a, at, rt, NORMS[norm])
    m.check('symmetric', all(same(x, y) for x, y in zip(r, s)), swapped=s, **kw)
    z = abs_rel_compare(a, a.copy(), 0., gen.pick(rng, None, 0.), NORMS[norm])
    m.check('reflexive', bool(z[0]) and z[5] == '', got=z, a=a)
    m.sig(a, b, at, rt, norm)
    m.sample(a=a, b=b, abs_tol=at, rel_tol=rt, equal=bool(eq))


def same(x, y):
    if isinstance(x, str) or isinstance(y, str):
        return x == y
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    return x.shape == y.shape and np.array_equal(x, y, equal_nan=True)


def boundary(m):
    """Differences exactly representable and exactly equal to a tolerance are still equal."""
    rng = m.rng
    at = float(2. ** rng.randint(-10, 3))
    n = rng.randint(1, 5)
    a = rng.randint(-50, 50, n) * 16.
    b = a.copy()
    i = rng.randint(n)
    b[i] += at * rng.choice([-1, 1])
    r = abs_rel_compare(a, b, at, gen.pick(rng, None, 0.), np.abs)
    m.check('equal', bool(r[0]) and r[5] == '' and r[1] == at, a=a, b=b, abs_tol=at, result=r)
    b[i] += np.sign(b[i] - a[i]) * at * 2. ** -20
    r = abs_rel_compare(a, b, at, None, np.abs)
    m.check('equal', not r[0], a=a, b=b, abs_tol=at, result=r)
    # relative: 2 |x - y| / (|x| + |y|) with x = 3, y = 5 is exactly one half
    s = 2. ** rng.randint(-8, 9)
    x, y = np.array([3. * s, 7.]), np.array([5. * s, 7.])
    r = abs_rel_compare(x, y, 1e-9, 0.5, np.abs)
    m.check('equal', bool(r[0]) and r[3] == 0.5 and bool(r[2]), x=x, y=y, result=r)
    r = abs_rel_compare(x, y, 1e-9, 0.5 - 1e-9, np.abs)
    m.check('equal', not r[0] and r[3] == 0.5, x=x, y=y, result=r)
    # several entries share the largest relative difference exactly: the largest absolute one of them is reported
    n = rng.randint(2, 7)
    p = 2. ** rng.randint(-9, 10, n)
    x, y = 3. * p, 5. * p
    if rng.randint(2):
        k = rng.randint(n + 1)
        x, y = np.insert(x, k, 640.), np.insert(y, k, 768.)
    shp = gen.pick(rng, (x.size,), (x.size, 1), (1, x.size, 1))
    r = abs_rel_compare(x.reshape(shp), y.reshape(shp), 1e-9, float(gen.pick(rng, 0.1, 0.7)), np.abs)
    m.check('rel-diff', bool(r[2]) and r[3] == 0.5 and r[4] == 2. * p.max(), x=x, y=y, result=r)
    m.sig(a, b, at, s, p)


def places(m):
    """Arrays of the same values, the non-finite ones at the same or at other places."""
    rng = m.rng
    n = int(rng.randint(1, 7))
    v = np.where(rng.uniform(size=n) < 0.6, rng.choice([np.nan, np.inf, -np.inf], n), rng.randint(0, 2, n) * 1.)
    w = v.copy()
    how = rng.randint(3)
    if how == 0:
        w = rng.permutation(v)
    elif how == 1:
        w = np.where(np.isinf(v), -v, v)
    shp = gen.pick(rng, (n,), (n, 1), (1, n), (1, n, 1))
    at, rt = float(gen.pick(rng, 0., 1e-6, 0.5, 2.)), gen.pick(rng, None, 0., 0.1, 2.5)
    r = abs_rel_compare(v.reshape(shp), w.reshape(shp), at, rt, np.abs)
    e = ref(v, w, at, rt, 'abs')
    exp = e is not None and e[0]
    m.check('non-finite', bool(r[0]) == exp and (r[5] == '') == exp, a=v, b=w, abs_tol=at, rel_tol=rt, result=r)
    m.sig(v, w, at, rt, shp)


def rejected(m):
    a = m.rng.standard_normal((2, 3))
    good = (a, a.copy(), 1e-3, None, np.abs)

    def bad(i, v, text):
        args = list(good)
        args[i] = v
        m.raises('rejected', lambda: abs_rel_compare(*args), text, kinds=(ValueError,), position=i, value=v)
    for v in (a[:, :2], a.T, a.flatten(), a[None], np.array([['a', 'b', 'c']] * 2), np.full((2, 3), None)):
        bad(0, v, 'wrongArgs')
        bad(1, v, 'wrongArgs')
    for v in (-1e-9, None, 1j, np.array([1e-3, 1e-3]), np.array([1e-3]), [1e-3], np.nan):
        bad(2, v, 'wrongAbsTol')
    for v in (-1e-9, 1j, np.array([1e-3, 1e-3]), np.array([1e-3]), [1e-3], np.nan):
        bad(3, v, 'wrongRelTol')
    for v in (None, 2, 'abs', a):
        bad(4, v, 'wrongNormOp')
    m.sig(m.index)


def extreme(m):
    """The largest and smallest numbers there are: sums of magnitudes leave the range, relative differences do not."""
    rng = m.rng
    n = int(rng.randint(1, 6))
    big = rng.randint(4) > 0
    lim = 1.79e308 if big else 1e-309
    v = rng.uniform(0.05, 1, n) * lim * rng.choice([-1, 1], n)
    w = v * np.where(rng.uniform(size=n) < 0.6, 1., rng.uniform(0.3, 1., n))
    if rng.randint(5) == 0:
        w[rng.randint(n)] *= -1
    at = 0. if not big else float(gen.pick(rng, 0., 1e-6, 1e300))
    rt = float(gen.pick(rng, 0., 1e-6, 0.1, 0.5, 1.2))
    pairs = [(Fraction(float(x)), Fraction(float(y))) for x, y in zip(v, w)]
    rel = [2 * abs(x - y) / (abs(x) + abs(y)) for x, y in pairs if abs(x - y) > Fraction(at)]
    mx = max(abs(x - y) for x, y in pairs)
    if rel and abs(float(max(rel)) - rt) < 1e-9 and max(rel) != rt:
        m.trivial = True
        return
    with np.errstate(all='ignore'):
        r = abs_rel_compare(v, w, at, rt, np.abs)
        t = abs_rel_compare(w, v, at, rt, np.abs)
    exp = not rel or max(rel) <= Fraction(rt)
    kw = dict(a=v, b=w, abs_tol=at, rel_tol=rt, result=r)
    m.check('equal', bool(r[0]) == exp and (r[5] == '') == exp, expected=exp, **kw)
    m.check('rel-triggered', bool(r[2]) == bool(rel), **kw)
    if rel:
        m.check('rel-diff', abs(float(r[3]) - float(max(rel))) <= 1e-12 * float(max(rel)), expected=float(max(rel)), **kw)
    fits = mx <= Fraction(1.797e308)
    m.check('abs-diff', abs(r[1] - float(mx)) <= 1e-15 * float(mx) if fits else r[1] == np.inf, **kw)
    m.check('symmetric', all(same(x, y) for x, y in zip(r, t)), swapped=t, **kw)
    m.sig(v, w, at, rt)


def integers(m):
    """Whole numbers of every size and type: differences are exact whatever the type can hold."""
    rng = m.rng
    n = int(rng.randint(1, 6))
    types = [np.int64, np.uint64, np.int32, np.uint8, np.int16]
    t1 = types[rng.randint(len(types))]
    t2 = t1 if rng.randint(3) else types[rng.randint(len(types))]

    def draw(t):
        i = np.iinfo(t)
        c = [i.max, i.max - 1, i.min, i.min + 1, 0, 1, i.max // 2, i.max // 2 + 1]
        if i.max > 2 ** 60:
            c += [2 ** 53, 2 ** 53 + 1, 2 ** 60 + int(rng.randint(100)), 2 ** 62 + int(rng.randint(100)), i.max - int(rng.randint(100))]
        return c[rng.randint(len(c))]
    a = [int(draw(t1)) for _ in range(n)]
    i2 = np.iinfo(t2)
    b = [x if i2.min <= x <= i2.max and rng.randint(2) else
         min(max(x + int(rng.randint(-3, 4)), i2.min), i2.max) if rng.randint(3) else int(draw(t2)) for x in a]
    v, w = np.array(a, dtype=t1), np.array(b, dtype=t2)
    diffs = [abs(x - y) for x, y in zip(a, b)]
    at = float(gen.pick(rng, 0., 0.5, 1., 2., 5., 1e10))
    rt = gen.pick(rng, None, None, 0., 1e-12, 0.5)
    rel = [] if rt is None else [Fraction(2 * d, abs(x) + abs(y)) for x, y, d in zip(a, b, diffs) if d > at and abs(x) + abs(y) > at]
    if rel:
        rest = [d for x, y, d in zip(a, b, diffs) if not (d > at and abs(x) + abs(y) > at)]
        if 0 < abs(float(max(rel)) - rt) < 1e-9 * rt:
            m.trivial = True
            return
        exp = max(rel) <= Fraction(rt) and max(rest, default=0) <= at
    else:
        exp = max(diffs) <= at
    r = abs_rel_compare(v, w, at, rt, np.abs)
    kw = dict(a=a, b=b, types=(t1.__name__, t2.__name__), abs_tol=at, rel_tol=rt, result=r)
    m.check('equal', bool(r[0]) == exp and (r[5] == '') == exp, expected=exp, **kw)
    m.check('abs-diff', abs(float(r[1]) - float(max(diffs))) <= 1e-15 * float(max(diffs)), expected=max(diffs), **kw)
    t = abs_rel_compare(w, v, at, rt, np.abs)
    m.check('symmetric', all(same(x, y) for x, y in zip(r, t)), swapped=t, **kw)
    m.sig(a, b, t1.__name__, t2.__name__, at, rt)


CASES = [('compare', compare, 1500, 40000), ('boundary', boundary, 200, 4000), ('places', places, 500, 10000), ('extreme', extreme, 200, 5000), ('integers', integers, 300, 8000), ('rejected', rejected, 2, 10)]
