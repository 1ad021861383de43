"""C06  Point membership in unions and intersections is exact."""
import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from .. import gen

RULE = ('1..5 ellipsoids of dimension 1..5 (full and degenerate with their own tolerances, any array arrangement) and '
        '1..8 points aimed at insides, boundaries, just outside, and off the hull of degenerate members; verdicts '
        'recomputed through eigenvalues raised to the tolerance; points nearer than 1e-4 to a boundary of which they '
        'are not known to be part are not judged; distinct by content')
REQUIRED = ['union', 'intersection', 'boundary', 'degenerate', 'independent', 'shape', 'rejected']


def tol_of(e):
    return float(Ellipsoid.get_abs_tol([e], None).flatten()[0])


def radius(e, x):
    q, sh = e.parameters()
    tol = tol_of(e)
    d, v = np.linalg.eigh(gen.sym(sh))
    if d[0] <= tol:
        d = np.maximum(d, tol)
    return float(np.sqrt(np.sum((v.T @ (x - q)) ** 2 / d)))


def verdict(e, x):
    """True, False or None (too near to tell)."""
    r = radius(e, x)
    tol = tol_of(e)
    if tol >= 1e-3 and abs(np.max(e.parameters()[1])) < 1e3 and np.max(np.abs(x)) < 1e3:
        return True if r < 1. + 0.9 * tol else False if r > 1. + 1.1 * tol else None
    return True if r < 1. - 1e-4 else False if r > 1. + 1e-4 + 1.5 * tol else None


def make(rng, n):
    kw = gen.settings(rng)
    kw['abs_tol'] = float(10. ** rng.uniform(-8, -4 if rng.randint(3) else -1.5))
    if rng.randint(10) == 0:                # nonnegative definite within its own tolerance
        sh, kw['abs_tol'], _ = gen.loose(rng, n, -5, -1.5)
        return Ellipsoid(gen.center(rng, n), sh, **kw)
    far = 10. ** rng.uniform(1, 4) if rng.randint(4) == 0 else 0.5
    return Ellipsoid(far * gen.center(rng, n), gen.spd(rng, n, 0.3, 4.) if rng.randint(3) else gen.psd(rng, n), **kw)


def point(rng, ells):
    """A point and the index of the member on whose boundary it lies exactly (or None)."""
    e = ells[rng.randint(len(ells))]
    q, sh = e.parameters()
    n = q.size
    tol = tol_of(e)
    d, v = np.linalg.eigh(gen.sym(sh))
    d0 = np.maximum(d, 0.)
    u = rng.standard_normal(n)
    u /= np.linalg.norm(u)
    k = rng.randint(6)
    if k == 5:                               # about a tolerance outside
        return q + v @ (np.sqrt(np.maximum(d, tol) if d[0] <= tol else d0) * u) * (1. + tol * rng.uniform(0., 2.)), None
    if k == 0:
        return q.copy(), None
    if k == 1 and d[0] > 0.1:
        return q + v @ (np.sqrt(d0) * u), e
    if k == 2 and d[0] <= tol:               # off the hull of a degenerate member
        w = u.copy()
        w[d > tol] *= 0.3
        w[d <= tol] *= gen.pick(rng, 0.2, 0.6, 3., 1e3)
        return q + v @ (np.sqrt(np.maximum(d0, tol)) * w), None
    if k == 3:
        return q + v @ (np.sqrt(d0) * u) * gen.pick(rng, 0.5, 0.99, 0.999, 1.001, 1.01, 2.), None
    return q + 2. * rng.standard_normal(n), None


def combine(vs, mode):
    if mode == 'u':
        return True if True in vs else None if None in vs else False
    return False if False in vs else None if None in vs else True


def membership(m):
    rng = m.rng
    n = gen.dim(rng, 6)
    shp = gen.pick(rng, (1,), (), (2,), (3,), (1, 2), (2, 1), (2, 2), (1, 2, 2), (5,)) if rng.randint(15) else gen.pick(rng, (17,), (5, 4), (2, 3, 2))
    k = int(np.prod(shp))
    ells = [make(rng, n) for _ in range(k)]
    if k > 1 and rng.randint(2):             # a common part is likely
        c = ells[0].parameters()[0]
        ells = [Ellipsoid(c + 0.2 * rng.standard_normal(n), e.parameters()[1], abs_tol=tol_of(e)) for e in ells]
    gen.alias(rng, ells)
    pts = [point(rng, ells) for _ in range(gen.many(rng, 9, 60))]
    x = np.stack([p for p, _ in pts], axis=1)
    arg = gen.as_arg(rng, ells, shp)
    for mode, mech in (('u', 'union'), ('i', 'intersection')):
        got = Ellipsoid.is_internal(arg, x, mode)
        m.need('shape', np.size(got) == len(pts) and np.asarray(got).dtype == bool, got=got)
        got = np.array(got).flatten()
        for i, (p, on) in enumerate(pts):
            vs = [True if e is on else verdict(e, p) for e in ells]
            exp = combine(vs, mode)
            if exp is None:
                m.note('points too near a boundary')
                continue
            m.check(mech, bool(got[i]) == exp, point=p, expected=exp, members=[list(e.parameters()) for e in ells],
                    radii=[radius(e, p) for e in ells], tols=[tol_of(e) for e in ells])
            if on is not None:
                m.check('boundary', mode == 'i' or bool(got[i]), point=p)
            if any(Ellipsoid.is_degenerate([e]).flatten()[0] for e in ells):
                m.check('degenerate', bool(got[i]) == exp)
        # independent of the other points and of the order of the ellipsoids
        perm = rng.permutation(len(pts))
        again = np.array(Ellipsoid.is_internal(arg, x[:, perm], mode)).flatten()
        m.check('independent', np.array_equal(again, got[perm]), got=got, again=again, perm=perm)
        i = rng.randint(len(pts))
        alone = np.array(Ellipsoid.is_internal(arg, x[:, i:i + 1], mode)).flatten()
        m.check('independent', bool(alone[0]) == bool(got[i]), point=x[:, i])
        order = rng.permutation(k)
        again = np.array(Ellipsoid.is_internal([ells[j] for j in order], x, mode)).flatten()
        m.check('independent', np.array_equal(again, got), got=got, again=again)
    m.sig([list(e.parameters()) for e in ells], x)
    m.sample(ellipsoids=[list(e.parameters()) for e in ells], points=x)


def rejected(m):
    rng = m.rng
    n = gen.dim(rng, 5)
    ells = [make(rng, n) for _ in range(rng.randint(1, 4))]
    x = rng.standard_normal((n, 2))
    m.raises('rejected', lambda: Ellipsoid.is_internal(ells, x, gen.pick(rng, 'x', 'union', '', 'U')))
    m.raises('rejected', lambda: Ellipsoid.is_internal(ells, rng.standard_normal((n + 1, 2)), 'u'))
    m.raises('rejected', lambda: Ellipsoid.is_internal(ells + [make(rng, n + 1)], x, 'i'))
    m.raises('rejected', lambda: Ellipsoid.is_internal(ells + [Ellipsoid()], x, 'i'))
    m.raises('rejected', lambda: Ellipsoid.is_internal([], x, 'u'))
    m.raises('rejected', lambda: Ellipsoid.is_internal(ells, np.array([['a', 'b']] * n), 'u'))
    m.raises('rejected', lambda: Ellipsoid.is_internal([1, 2], x, 'u'))
    m.sig(m.index)


def crowd(m):
    """Hundreds of points or hundreds of ellipsoids."""
    rng = m.rng
    n = rng.randint(1, 4)
    k, np_ = (rng.randint(1, 4), rng.randint(200, 1500)) if rng.randint(2) else (rng.randint(60, 400), rng.randint(1, 20))
    c = gen.center(rng, n)
    ells = [Ellipsoid(c + 0.3 * rng.standard_normal(n), gen.spd(rng, n, 0.5, 3.)) for _ in range(k)]
    if rng.randint(2):                       # all but one contain the neighbourhood of a point, or only one does
        i, inside = rng.randint(k), bool(rng.randint(2))
        ells = [Ellipsoid(c + 0.1 * rng.standard_normal(n) + (4. if (j == i) == inside else 0.),
                          gen.spd(rng, n, 0.5, 1.)) for j in range(k)]
    x = c.reshape(-1, 1) + rng.standard_normal((n, np_)) * gen.pick(rng, 0.3, 1., 3.)
    # own verdicts
    r = np.empty((k, np_))
    for j, e in enumerate(ells):
        q, sh = e.parameters()
        d, v = np.linalg.eigh(gen.sym(sh))
        r[j] = np.sqrt(np.sum((v.T @ (x - q.reshape(-1, 1))) ** 2 / d.reshape(-1, 1), axis=0))
    for mode, mech in (('u', 'union'), ('i', 'intersection')):
        far = np.min(r, axis=0) if mode == 'u' else np.max(r, axis=0)
        got = np.asarray(Ellipsoid.is_internal(ells, x, mode)).flatten()
        m.need('shape', got.size == np_, got=got.size, expected=np_)
        sure = np.abs(far - 1.) > 1e-4
        bad = np.nonzero(sure & (got.astype(bool) != (far < 1.)))[0]
        m.check(mech, bad.size == 0, members=k, points=np_, first=bad[:3], radius=far[bad[:3]])
        m.check('independent', bad.size == 0)
    m.sig(n, k, np_, x[:, 0])
    m.sample(members=k, points=np_, n=n)


CASES = [('large_membership', gen.large(membership, 20, 70), 12, 300),
         ('membership', membership, 250, 7000), ('crowd', crowd, 12, 300), ('rejected', rejected, 10, 60)]
