"""C04  Support function and support points are exact."""
import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.conf.properties.Properties import Properties
from ellipy.gras.geom.ell.ell import rho_mat
from .. import gen

RULE = ('ellipsoids of dimension 1..6 (full, degenerate, a single point, slightly indefinite within their own '
        'tolerance) against directions of length 0.1..10 incl. directions without extent, in every pairing the call '
        'accepts (one/many, many/one, matching arrays up to 3-D, lists); values and points recomputed from the '
        'definition; distinct by content')
REQUIRED = ['value', 'point-attains', 'point-inside', 'no-extent', 'elementwise', 'shape', 'rejected']


def make(rng, n):
    k = rng.randint(6)
    kw = gen.settings(rng)
    sh = gen.spdw(rng, n) if k < 3 else gen.psd(rng, n)
    if k == 5:
        tol = kw.get('abs_tol', 1e-6)
        d = rng.uniform(0.5, 2., n)
        d[rng.randint(n)] = -0.3 * tol
        sh = np.diag(d)
    return Ellipsoid(gen.center(rng, n), sh, **kw)


def ref(e, l):
    q, sh = e.parameters()
    return float(q @ l + np.sqrt(max(0., float(l @ sh @ l))))


def check_one(m, e, l, sup, pt):
    q, sh = e.parameters()
    l = np.array(l, dtype=float)
    ext = float(l @ sh @ l) / float(l @ l)
    scale = float(np.linalg.norm(l)) * (1. + float(np.linalg.norm(q)))
    tol = 1e-9 if ext > 1e-8 else 1e-5
    m.check('value', abs(float(sup) - ref(e, l)) <= tol * scale, got=sup, expected=ref(e, l), center=q, shape=sh, dir=l)
    m.check('point-attains', pt.shape == q.shape and np.all(np.isfinite(pt)) and
            abs(float(pt @ l) - float(sup)) <= tol * scale, point=pt, dir=l, sup=sup, center=q, shape=sh)
    # membership: the offset lies in the range of the shape and in the unit ball of its inverse there
    d, v = np.linalg.eigh(gen.sym(sh))
    c = v.T @ (pt - q)
    pos = d > 1e-8
    r2 = float(np.sum(c[pos] ** 2 / d[pos]))
    if d[0] > -1e-12:           # for a shape indefinite within tolerance membership is not defined
        m.check('point-inside', r2 <= 1. + 1e-6 and np.all(np.abs(c[~pos]) <= 1e-4), point=pt, center=q, shape=sh, dir=l)
    if ext <= 1e-12:
        m.check('no-extent', abs(float(sup) - float(q @ l)) <= 1e-5 * scale, sup=sup, center=q, shape=sh, dir=l)


def direction(rng, e, n):
    """General, or without extent, or unit (slightly indefinite shapes amplify with the length)."""
    q, sh = e.parameters()
    d, v = np.linalg.eigh(gen.sym(sh))
    if d[0] < 1e-8 and rng.randint(2):
        if d[0] < 0:
            l = np.zeros(n)
            l[np.argmin(np.diag(sh))] = 1.
            return l
        return v[:, 0] * gen.pick(rng, 1., -1., 0.5)
    l = gen.nzvec(rng, n)
    if d[0] >= 0 and rng.randint(4) == 0:
        l = l * 10. ** rng.uniform(-12, 12)
    return l / np.linalg.norm(l) if d[0] < 0 else l


def single(m):
    rng = m.rng
    n = gen.dim(rng, 7)
    e = make(rng, n)
    k = int(rng.randint(150, 1200)) if gen.CROWD else gen.pick(rng, 1, 1, 2, 3, 7) if rng.randint(15) else rng.randint(8, 150)
    ls = np.stack([direction(rng, e, n) for _ in range(k)], axis=1)
    arg = gen.pick(rng, [e], e, np.array([e]), np.array([[e]]))
    sup, pts = Ellipsoid.rho(arg, ls.copy() if rng.randint(3) else np.asfortranarray(ls))
    m.need('shape', np.size(sup) == k and np.shape(pts) == (n, k), sup=np.shape(sup), pts=np.shape(pts), n=n, k=k)
    for i in range(k):
        check_one(m, e, ls[:, i], np.array(sup).flatten()[i], pts[:, i])
        s1, p1 = Ellipsoid.rho([e], ls[:, i:i + 1])
        m.close('elementwise', np.array(sup).flatten()[i], np.array(s1).flatten()[0], 1e-6)
        m.close('elementwise', pts[:, i], np.array(p1).flatten(), 1e-5)
    m.sig(list(e.parameters()), ls)
    m.sample(center=e.parameters()[0], shape=e.parameters()[1], dirs=ls)
    # directions in a multi-dimensional array
    dims = gen.pick(rng, (2, 2), (1, 3), (2, 1, 2), (3, 1), (2, 1, 3, 2), (4, 5), (3, 2, 2))
    flat = np.stack([direction(rng, e, n) for _ in range(int(np.prod(dims)))], axis=1)
    sup, pts = Ellipsoid.rho(arg, flat.reshape((n,) + dims))
    m.need('shape', np.shape(sup) == dims and np.shape(pts) == (n,) + dims, sup=np.shape(sup), pts=np.shape(pts))
    for i in range(flat.shape[1]):
        check_one(m, e, flat[:, i], sup.flatten()[i], pts.reshape(n, -1)[:, i])
    # the kernel by itself: defaults are the configuration's tolerance and a centre in the origin
    q, sh = e.parameters()
    if np.min(np.linalg.eigvalsh(sh)) > -1e-12:
        e0 = Ellipsoid(sh, abs_tol=1e-6)
        cv = gen.pick(rng, None, q.reshape(-1, 1))
        sup, pts = rho_mat(sh, ls, gen.pick(rng, None, 1e-6), cv)
        for i in range(k):
            check_one(m, e0 if cv is None else Ellipsoid(q, sh), ls[:, i], np.array(sup).flatten()[i],
                      np.array(pts)[:, i])


def many_one(m):
    rng = m.rng
    n = gen.dim(rng, 5)
    shp = gen.shape(rng, multi=True)
    k = int(np.prod(shp))
    ells = gen.alias(rng, [make(rng, n) for _ in range(k)])
    l = direction(rng, ells[rng.randint(k)], n)
    if any(np.min(np.linalg.eigvalsh(e.parameters()[1])) < -1e-12 for e in ells):
        l = l / np.linalg.norm(l)
    sup, pts = Ellipsoid.rho(gen.as_arg(rng, ells, shp), l.reshape(-1, 1))
    m.need('shape', np.shape(sup) == shp and np.size(pts) == n * k, sup=np.shape(sup), pts=np.shape(pts), shp=shp)
    pts = np.reshape(pts, (n, k))
    for i in range(k):
        check_one(m, ells[i], l, sup.flatten()[i], pts[:, i])
        s1, p1 = Ellipsoid.rho([ells[i]], l.reshape(-1, 1))
        m.close('elementwise', sup.flatten()[i], np.array(s1).flatten()[0], 1e-6)
        m.close('elementwise', pts[:, i], np.array(p1).flatten(), 1e-5)
    m.sig([list(e.parameters()) for e in ells], l, shp)


def many_many(m):
    rng = m.rng
    n = gen.dim(rng, 5)
    kind = bool(gen.CROWD) or rng.randint(2)
    if kind:
        k = int(rng.randint(60, gen.CROWD)) if gen.CROWD else 1 + gen.many(rng, 5, 40)
        shp, dshape = (k,), (n, k)
        if rng.randint(3) == 0:
            shp = gen.pick(rng, (k,), (1, k), (k, 1))
    else:
        shp = gen.pick(rng, (2, 2), (2, 3), (1, 3), (3, 1), (2, 1, 2))
        k = int(np.prod(shp))
        dshape = (n,) + shp
    ells = gen.alias(rng, [make(rng, n) for _ in range(k)])
    ls = np.stack([direction(rng, e, n) for e in ells], axis=1)
    sup, pts = Ellipsoid.rho(gen.as_arg(rng, ells, shp), ls.reshape(dshape))
    m.need('shape', np.size(sup) == k and np.size(pts) == n * k, sup=np.shape(sup), pts=np.shape(pts), shp=shp)
    if len(dshape) > 2:
        m.need('shape', np.shape(sup) == shp and np.shape(pts) == dshape, sup=np.shape(sup), pts=np.shape(pts))
    sup, pts = np.array(sup).flatten(), np.reshape(pts, (n, k))
    for i in range(k):
        check_one(m, ells[i], ls[:, i], sup[i], pts[:, i])
        s1, p1 = Ellipsoid.rho([ells[i]], ls[:, i:i + 1])
        m.close('elementwise', sup[i], np.array(s1).flatten()[0], 1e-6)
        m.close('elementwise', pts[:, i], np.array(p1).flatten(), 1e-5)
    m.sig([list(e.parameters()) for e in ells], ls, shp)


def rejected(m):
    rng = m.rng
    n = gen.dim(rng, 5)
    ells = [make(rng, n) for _ in range(3)]
    m.raises('rejected', lambda: Ellipsoid.rho(ells, np.ones((n + 1, 1))))
    m.raises('rejected', lambda: Ellipsoid.rho([ells[0]], np.ones((n + 1, 2))))
    m.raises('rejected', lambda: Ellipsoid.rho(ells, np.ones((n, 2))))
    m.raises('rejected', lambda: Ellipsoid.rho(ells + [Ellipsoid(np.eye(n + 1))], np.ones((n, 1))))
    m.raises('rejected', lambda: Ellipsoid.rho([1, 2, 3], np.ones((n, 1))))
    m.raises('rejected', lambda: Ellipsoid.rho(ells, np.array([['a']] * n)))
    m.sig(m.index)


def whole(m):
    """Shapes and directions given as whole numbers of any type."""
    rng = m.rng
    n, k = gen.dim(rng, 5), rng.randint(1, 6)
    q = np.abs(gen.whole(rng, n))
    q[q <= 0] = 1
    sh, ls = np.diag(q), gen.whole(rng, n, k)
    ls[rng.randint(n), ~np.any(ls != 0, axis=0)] = 1
    fq, fl = q.astype(float), ls.astype(float)
    r = np.sqrt(np.sum(fl * fl * fq[:, None], axis=0))
    pts = fq[:, None] * fl / r
    c = gen.whole(rng, n).astype(ls.dtype)
    fc = c.astype(float)
    for name, got, at in (('rho_mat', rho_mat(sh, ls.copy(), 1e-6), 0.), ('rho', Ellipsoid.rho([Ellipsoid(sh)], ls.copy()), 0.),
                          ('rho_mat', rho_mat(sh, ls.copy(), 1e-6, c.reshape(-1, 1).copy()), fc),
                          ('rho', Ellipsoid.rho([Ellipsoid(c.copy(), sh)], ls.copy()), fc)):
        exp = r + at @ fl if np.ndim(at) else r
        tol = 1e-9 * (r + (np.abs(at) @ np.abs(fl) if np.ndim(at) else 0.))
        m.check('value', np.size(got[0]) == k and np.all(np.abs(np.ravel(got[0]) - exp) <= tol), got=got[0], expected=exp, q=q, l=ls,
                center=at, fn=name)
        if np.ndim(at):
            m.check('attained', np.shape(got[1]) == (n, k) and np.allclose(got[1] - at[:, None], pts, 1e-9, 1e-9 * (1. + np.max(np.abs(at)))),
                    got=got[1], center=at, q=q, l=ls, fn=name)
            continue
        m.check('attained', np.shape(got[1]) == (n, k) and np.allclose(got[1], pts, 1e-9, 1e-9), got=got[1], expected=pts,
                q=q, l=ls, fn=name)
    m.sig(q, ls)


CASES = [('large_single', gen.large(single, 20, 70), 12, 300), ('large_many_one', gen.large(many_one, 20, 70), 12, 300),
         ('crowd_single', gen.crowded(single, 300), 4, 100), ('crowd_many_one', gen.crowded(many_one, 500), 4, 100), ('crowd_many_many', gen.crowded(many_many, 500), 4, 100),
         ('single', single, 300, 8000), ('many_one', many_one, 120, 3000), ('many_many', many_many, 120, 3000),
         ('whole', whole, 60, 1500), ('rejected', rejected, 8, 40)]
