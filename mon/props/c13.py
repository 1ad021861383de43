"""C13  Hyperplane point membership."""
import numpy as np
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from .. import gen

RULE = ('points placed at a chosen signed distance (0, below, above the tolerance) from hyperplanes of dimension 1..7 with '
        'their own tolerances, with infinite coordinates where the normal vanishes or not; one/many, many/one, many/many '
        'in 1..3-D arrays and lists; distinct by content')
REQUIRED = ['on', 'off', 'infinite-ignored', 'infinite-off', 'shape', 'rejected']


def make(rng, n):
    kw = gen.settings(rng, hyp=True)
    nv = gen.nzvec(rng, n)
    if n > 1 and rng.randint(3) == 0:
        nv[rng.permutation(n)[:rng.randint(1, n)]] = 0.
        if not np.any(nv):
            nv[0] = 1.
    if n > 1 and rng.randint(4) == 0:                # hardly, but not, parallel to an axis
        i = rng.randint(n)
        nv[i] = 10. ** rng.uniform(-18, -6)
        nv[(i + 1) % n] = nv[(i + 1) % n] or 1.
    if rng.randint(8) == 0:
        nv = nv * 10. ** rng.uniform(-3, 3)
    h = Hyperplane(gen.vec_form(rng, nv), float(gen.pick(rng, 0., rng.uniform(-5, 5), rng.uniform(-5, 5), 10. ** rng.uniform(1, 4))), **kw)
    return h, nv, float(h.parameters()[1]), float(Hyperplane.get_abs_tol([h], None).flatten()[0])


def point(rng, item):
    """A point, whether it is on the hyperplane, and the oracle it exercises."""
    _, nv, c, tol = item
    n = nv.size
    x = gen.vec(rng, n)
    zero = np.flatnonzero(nv == 0.)
    nz = np.flatnonzero(nv)
    k = rng.randint(8)
    if k == 0 and zero.size:
        for i in rng.permutation(zero)[:rng.randint(1, zero.size + 1)]:
            x[i] = gen.pick(rng, np.inf, -np.inf)
        mech = 'infinite-ignored'
    elif k == 1:
        for i in rng.permutation(nz)[:rng.randint(1, nz.size + 1)]:
            x[i] = gen.pick(rng, np.inf, -np.inf)
        if zero.size and rng.randint(2):
            x[zero[rng.randint(zero.size)]] = gen.pick(rng, np.inf, -np.inf)
        return x, False, 'infinite-off'
    else:
        mech = None
    off = gen.pick(rng, 0., 0.5 * tol, -0.5 * tol, 2. * tol, -2. * tol, 1., -3., None)
    if off is None:
        off = 10. ** rng.uniform(-3, 1)
    i = nz[np.argmax(np.abs(nv[nz]))]
    fin = np.where(np.isfinite(x), x, 0.)
    x[i] += (c + off - nv @ fin) / nv[i]
    # rounding of the product must not matter
    fin = np.where(np.isfinite(x), x, 0.)
    size = abs(c) + float(np.max(np.abs(nv * fin)))
    if abs(abs(off) - tol) < 1e-14 * n * size:
        x[i] += (3 * tol + 1e-13 * n * size) / nv[i]
        off = off + 3 * tol + 1e-13 * n * size
    return x, abs(off) < tol, mech or ('on' if abs(off) < tol else 'off')


def judge(m, got, exp, mechs, shp, items, xs):
    g = np.array(got)
    m.need('shape', g.shape == tuple(shp) and g.dtype == bool, got=g, shp=shp)
    for i, (a, b) in enumerate(zip(g.flatten(), exp)):
        it = items[i if len(items) > 1 else 0]
        m.check(mechs[i], bool(a) == b, got=a, expected=b, normal=it[1], shift=it[2], tol=it[3],
                point=xs[i if len(xs) > 1 else 0])


def single(m):
    rng = m.rng
    n = gen.dim(rng, 8)
    it = make(rng, n)
    x, exp, mech = point(rng, it)
    hyp = gen.pick(rng, it[0], [it[0]], np.array([it[0]]), np.array([[it[0]]]))
    got = Hyperplane.contains(hyp, gen.pick(rng, x, x.reshape(-1, 1)))
    judge(m, got, [exp], [mech], np.shape(np.array(hyp)), [it], [x])
    m.sig(it[1], it[2], x)
    m.sample(normal=it[1], shift=it[2], point=x)


def many_points(m):
    rng = m.rng
    n = gen.dim(rng, 6)
    it = make(rng, n)
    shp = gen.crowd_shape(rng) if gen.CROWD else gen.pick(rng, (2,), (3,), (5,), (7,), (1, 2), (3, 1), (2, 2), (2, 1, 3)) if rng.randint(15) else gen.pick(rng, *gen.BIG_SHAPES)
    k = int(np.prod(shp))
    pts = [point(rng, it) for _ in range(k)]
    xs = np.stack([p[0] for p in pts], axis=1)
    hyp = gen.pick(rng, it[0], [it[0]], np.array([it[0]]), np.array([[it[0]]]))
    x = xs.reshape((n,) + shp)
    got = Hyperplane.contains(hyp, x if rng.randint(2) else np.asfortranarray(x))
    judge(m, got, [p[1] for p in pts], [p[2] for p in pts], shp, [it], [p[0] for p in pts])
    m.sig(it[1], it[2], xs)


def many_hyps(m):
    rng = m.rng
    n = gen.dim(rng, 6)
    shp = gen.shape(rng, multi=True)
    k = int(np.prod(shp))
    items = gen.alias(rng, [make(rng, n) for _ in range(k)])
    x, _, _ = point(rng, items[rng.randint(k)])
    exp, mechs = [], []
    for it in items:
        fin = np.isfinite(x)
        if np.any(it[1][~fin] != 0):
            exp.append(False)
            mechs.append('infinite-off')
        else:
            d = abs(float(it[1][fin] @ x[fin]) - it[2])
            if abs(d - it[3]) < 1e-3 * it[3] + 1e-13:
                m.trivial = True
                return
            exp.append(d < it[3])
            mechs.append('on' if d < it[3] else 'off')
    hyp = gen.as_arg(rng, [it[0] for it in items], shp)
    got = Hyperplane.contains(hyp, gen.pick(rng, x, x.reshape(-1, 1)))
    judge(m, got, exp, mechs, shp, items, [x])
    m.sig([it[1] for it in items], x)


def infinite(m):
    """One point with infinite coordinates against one or many hyperplanes."""
    rng = m.rng
    n = int(rng.randint(2, 7))
    x = gen.vec(rng, n)
    bad = rng.permutation(n)[:rng.randint(1, n)]
    x[bad] = rng.choice([np.inf, -np.inf], len(bad))
    fin = np.isfinite(x)
    hyps, exp, mechs = [], [], []
    k = int(gen.pick(rng, 1, 1, 2, 3, 6))
    for _ in range(k):
        v = gen.nzvec(rng, n)
        ign = bool(rng.randint(3))
        if ign:
            v[bad] = 0.
        elif rng.randint(2):                # hardly, but not, zero
            v[bad] = 10. ** rng.uniform(-20, -5, len(bad)) * rng.choice([-1., 1.], len(bad))
        if not np.any(v[fin]):
            v[np.flatnonzero(fin)[0]] = 1.
        on = bool(rng.randint(3))
        c = float(v[fin] @ x[fin]) + (0. if on else gen.pick(rng, 1., -2.))
        hyps.append(Hyperplane(v, c, **gen.settings(rng, hyp=True)))
        off = np.any(v[bad] != 0)
        exp.append(bool(on and not off))
        mechs.append('infinite-off' if off else 'infinite-ignored')
    arg = x.copy() if rng.randint(2) else x.copy().reshape(-1, 1)
    arg0 = arg.copy()
    got = np.array(Hyperplane.contains(hyps, arg)).flatten()
    for i in range(k):
        m.check(mechs[i], bool(got[i]) == exp[i], got=got, expected=exp, point=x, i=i)
    m.check('infinite-ignored', np.array_equal(arg, arg0), got=arg, given=arg0)
    m.sig(x, k, exp)


def pairs(m):
    rng = m.rng
    n = gen.dim(rng, 6)
    shp = gen.shape(rng, multi=True)
    k = int(np.prod(shp))
    items = gen.alias(rng, [make(rng, n) for _ in range(k)])
    pts = [point(rng, it) for it in items]
    xs = np.stack([p[0] for p in pts], axis=1)
    hyp = gen.as_arg(rng, [it[0] for it in items], shp)
    got = Hyperplane.contains(hyp, xs.reshape((n,) + shp))
    judge(m, got, [p[1] for p in pts], [p[2] for p in pts], shp, items, [p[0] for p in pts])
    m.sig([it[1] for it in items], xs)


def rejected(m):
    rng = m.rng
    n = gen.dim(rng, 6)
    items = [make(rng, n) for _ in range(3)]
    hyps = [it[0] for it in items]
    x = gen.vec(rng, n)
    x[rng.randint(n)] = np.nan
    m.raises('rejected', lambda: Hyperplane.contains(hyps[0], x))
    m.raises('rejected', lambda: Hyperplane.contains(hyps, np.stack([gen.vec(rng, n), x, gen.vec(rng, n)], axis=1)))
    m.raises('rejected', lambda: Hyperplane.contains(hyps[0], np.ones(n + 1)))
    m.raises('rejected', lambda: Hyperplane.contains(hyps, np.ones((n + 1, 1))))
    m.raises('rejected', lambda: Hyperplane.contains(hyps, np.ones((n + 1, 3))))
    m.raises('rejected', lambda: Hyperplane.contains(hyps + [make(rng, n + 1)[0]], np.ones(n)))
    m.raises('rejected', lambda: Hyperplane.contains([1, 2], np.ones(n)))
    m.raises('rejected', lambda: Hyperplane.contains(hyps[0], np.array(['a'] * n)))
    m.sig(m.index)


def dims(m):
    rng = m.rng
    shp = gen.shape(rng)
    k = int(np.prod(shp))
    items = gen.alias(rng, [make(rng, rng.randint(1, 7)) for _ in range(k)])
    d = Hyperplane.dimension(gen.as_arg(rng, [it[0] for it in items], shp))
    m.check('dimension', np.shape(d) == shp and np.array(d).flatten().tolist() == [it[1].size for it in items], got=d, shp=shp)
    m.sig([it[1] for it in items], shp)


CASES = [('large_single', gen.large(single, 20, 70), 12, 300), ('large_many_points', gen.large(many_points, 20, 70), 12, 300), ('large_many_hyps', gen.large(many_hyps, 20, 70), 12, 300), ('large_pairs', gen.large(pairs, 20, 70), 12, 300),
         ('crowd_points', gen.crowded(many_points, 900), 8, 200), ('crowd_hyps', gen.crowded(many_hyps, 600), 8, 200), ('crowd_pairs', gen.crowded(pairs, 600), 8, 200), ('crowd_dims', gen.crowded(dims, 600), 5, 80),
         ('infinite', infinite, 60, 1500), ('single', single, 500, 15000), ('many_points', many_points, 250, 6000), ('many_hyps', many_hyps, 200, 5000),
         ('pairs', pairs, 250, 6000), ('rejected', rejected, 15, 100), ('dims', dims, 40, 400)]
