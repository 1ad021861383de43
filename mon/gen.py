"""Generators of test data.  Every function takes the RandomState of the case."""
import numpy as np


def pick(rng, *xs):
    return xs[rng.randint(len(xs))]


CROWD = 0
LARGE = None


def large(case, lo=20, hi=70):
    """The same case in spaces of dozens of dimensions."""
    def run(m):
        global LARGE
        LARGE = lo, hi
        try:
            case(m)
        finally:
            LARGE = None
    return run


def crowded(case, most=600):
    """The same case with arrays of dozens to hundreds of objects (of small dimensions)."""
    def run(m):
        global CROWD
        CROWD = most
        try:
            case(m)
        finally:
            CROWD = 0
    return run


def crowd_shape(rng):
    k = int(rng.randint(min(55, CROWD // 2), CROWD))
    return ((k,), (1, k), (k, 1), (k // 7, 7), (2, k // 6, 3))[rng.randint(5)]


def dim(rng, hi, lo=1):
    """A size in [lo, hi), now and then a much larger one."""
    if LARGE:
        return int(rng.randint(*LARGE))
    if CROWD:
        return int(rng.randint(lo, max(lo + 1, min(hi, 4))))
    return int(rng.randint(hi, 2 * hi + 6) if rng.randint(12) == 0 else rng.randint(lo, hi))


def many(rng, hi, big=150):
    """A number of things in [1, hi), now and then a really large one."""
    return int(rng.randint(hi, big) if rng.randint(15) == 0 else rng.randint(1, hi))


def orth(rng, n):
    q, r = np.linalg.qr(rng.standard_normal((n, n)))
    return q * np.where(np.diag(r) < 0, -1., 1.)


def sym(m):
    return 0.5 * (m + m.T)


def spd(rng, n, lo=0.3, hi=5.):
    """Symmetric positive definite with eigenvalues in [lo, hi]; sometimes special spectra or exactly diagonal."""
    kind = rng.randint(7)
    d = np.exp(rng.uniform(np.log(lo), np.log(hi), n))
    if kind == 0:
        return np.diag(d)
    if kind == 1:
        d[:] = d[0]
    if kind == 2:
        d[rng.randint(n)] = d[0]
    if kind == 3 and n > 2:                 # only some coordinates are coupled
        k = rng.randint(2, n)
        i = rng.permutation(n)[:k]
        r = np.diag(d)
        o = orth(rng, k)
        r[np.ix_(i, i)] = sym(o @ np.diag(d[i]) @ o.T)
        return r
    q = orth(rng, n)
    return sym(q @ np.diag(d) @ q.T)


def spdw(rng, n):
    """Symmetric positive definite, half of the time badly conditioned or of a small or large scale."""
    k = rng.randint(6)
    if k == 0:
        return spd(rng, n, 2e-4, 5.)
    if k == 1:
        return spd(rng, n, 0.01, 1000.)
    if k == 2:
        return spd(rng, n, 2e-4, 1e-3)
    return spd(rng, n)


def alias(rng, objs, prob=0.2):
    """Sometimes lets one object occur twice (next to itself or not)."""
    if len(objs) > 1 and rng.uniform() < prob:
        i = rng.randint(len(objs))
        j = (i + 1) % len(objs) if rng.randint(2) else rng.randint(len(objs))
        objs[j] = objs[i]
    return objs


def psd(rng, n, rank=None, lo=0.3, hi=5.):
    """Symmetric positive semidefinite of a rank below n; rank 0 possible."""
    rank = rng.randint(0, n) if rank is None else rank
    d = np.zeros(n)
    d[:rank] = np.exp(rng.uniform(np.log(lo), np.log(hi), rank))
    if rng.randint(3) == 0:
        return np.diag(rng.permutation(d))
    q = orth(rng, n)
    return sym(q @ np.diag(d) @ q.T)


def loose(rng, n, lo=-4, hi=-2):
    """A shape that is nonnegative definite only within a large tolerance of its own: (shape, tolerance, its positive part)."""
    tol = float(10. ** rng.uniform(lo, hi))
    d = np.exp(rng.uniform(np.log(0.3), np.log(5.), n))
    k = rng.permutation(n)[:rng.randint(1, n + 1) if rng.randint(3) == 0 else 1]
    d[k] = -tol * rng.uniform(0.05, 0.8, k.size)
    q = np.eye(n) if rng.randint(3) == 0 else orth(rng, n)
    return sym(q @ np.diag(d) @ q.T), tol, sym(q @ np.diag(np.maximum(d, 0.)) @ q.T)


def symm(rng, n, lo=0.3, hi=5.):
    """Symmetric indefinite, eigenvalues away from zero."""
    q = orth(rng, n)
    d = np.exp(rng.uniform(np.log(lo), np.log(hi), n)) * rng.choice([-1., 1.], n)
    if n > 1 and rng.randint(4) == 0:
        d[1] = d[0]
    return sym(q @ np.diag(d) @ q.T)


def vec(rng, n, scale=2.):
    v = scale * rng.standard_normal(n)
    if rng.randint(4) == 0:
        v[rng.randint(n)] = 0.
    return v


def nzvec(rng, n, lo=0.1, hi=10.):
    """Vector of a length in [lo, hi]; sometimes a coordinate direction."""
    v = rng.standard_normal(n)
    if rng.randint(4) == 0:
        v = np.zeros(n)
        v[rng.randint(n)] = rng.choice([-1., 1.])
    return v / np.linalg.norm(v) * np.exp(rng.uniform(np.log(lo), np.log(hi)))


def dirs(rng, n, k, lo=0.1, hi=10.):
    return np.stack([nzvec(rng, n, lo, hi) for _ in range(k)], axis=1)


def center(rng, n, scale=2.):
    kind = rng.randint(5)
    if kind == 0:
        return np.zeros(n)
    if kind == 1:                           # on a coordinate axis or plane
        v = scale * rng.standard_normal(n)
        v[rng.permutation(n)[:n - 1 if rng.randint(2) else n // 2]] = 0.
        return v
    return vec(rng, n, scale)


def settings(rng, hyp=False):
    d = {}
    if rng.randint(2):
        d['abs_tol'] = float(10. ** rng.uniform(-9, -5))
    if rng.randint(2):
        d['rel_tol'] = float(10. ** rng.uniform(-8, -4))
    if not hyp:
        if rng.randint(2):
            d['n_plot_2d_points'] = int(rng.randint(5, 120))
        if rng.randint(2):
            d['n_plot_3d_points'] = int(rng.randint(5, 120))
    return d


SHAPES = [(), (1,), (2,), (3,), (5,), (1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (1, 2, 2), (2, 1, 3), (2, 2, 2)]


BIG_SHAPES = [(17,), (4, 5), (2, 3, 4), (1, 2, 3, 2), (40,), (70,)]


def shape(rng, multi=False):
    if CROWD:
        return crowd_shape(rng)
    while True:
        s = SHAPES[rng.randint(len(SHAPES))] if rng.randint(20) else BIG_SHAPES[rng.randint(len(BIG_SHAPES))]
        if not multi or int(np.prod(s)) > 1:
            return s


def obj_array(objs, shp):
    a = np.empty((len(objs),), dtype=object)
    for i, o in enumerate(objs):
        a[i] = o
    return a.reshape(shp)


def as_arg(rng, objs, shp):
    """The same objects in one of the forms callers use: array, single object, (nested) list."""
    a = obj_array(objs, shp)
    if rng.randint(3) == 0:
        return a.tolist() if a.ndim else a.item()
    return np.asfortranarray(a) if a.ndim > 1 and rng.randint(4) == 0 else a


def vec_form(rng, v):
    """A vector as flat, row or column array."""
    k = rng.randint(3)
    return v.copy() if k == 0 else v.reshape(1, -1).copy() if k == 1 else v.reshape(-1, 1).copy()


def whole(rng, *shp):
    """Whole numbers of a short type, large for that type; none is zero."""
    tp = pick(rng, np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64)
    hi = min(np.iinfo(tp).max, 4 * 10 ** 9)
    x = np.maximum(1., np.floor(hi * rng.uniform(0.02, 1., shp) ** pick(rng, 1, 3)))
    if np.iinfo(tp).min < 0:
        x = x * rng.choice([-1., 1.], shp)
    return x.astype(tp)
