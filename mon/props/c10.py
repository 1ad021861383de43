"""C10  The polar ellipsoid is the polar set."""
import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from .. import gen

RULE = ('arrays of ellipsoids of dimension 1..6 containing the origin (centres up to 0.97 of the way to the boundary); '
        'points with support value one must lie on the polar\'s boundary, the polar of the polar is the original; then '
        'degenerate members and members with the origin on or beyond the boundary; distinct by content')
REQUIRED = ['polar-set', 'polar-thin', 'bipolar', 'shape', 'rejected-degenerate', 'rejected-origin', 'operands']


def make(rng, n, frac):
    sh = gen.spd(rng, n, 0.2, 6.) if rng.randint(4) else gen.spd(rng, n, 2e-3, 500.)
    if rng.randint(6) == 0:                 # almost a ball
        sh = gen.pick(rng, 1., 1., 4.) * (np.eye(n) + gen.sym(rng.uniform(-1, 1, (n, n))) * 10. ** rng.uniform(-7, -3))
    u = rng.standard_normal(n)
    u /= np.linalg.norm(u)
    d, v = np.linalg.eigh(sh)
    c = frac * (v @ (np.sqrt(d) * u))
    if rng.randint(4) == 0:                 # on a coordinate axis, also whole numbers or equal coordinates
        c = np.zeros(n)
        c[rng.randint(n)] = rng.choice([-1., 1.])
        if rng.randint(3) == 0:
            c[:] = 1.
        c *= frac / np.sqrt(c @ np.linalg.solve(sh, c))
    return Ellipsoid(c, sh, **gen.settings(rng))


def frac(rng):
    return gen.pick(rng, 0., rng.uniform(0., 0.8), rng.uniform(0.8, 0.97), 10. ** rng.uniform(-9, -1))


def check_polar(m, e, p):
    q, sh = e.parameters()
    pc, ps = p.parameters()
    n = q.size
    m.need('polar-set', pc.shape == (n,) and ps.shape == (n, n))
    inv = np.linalg.inv(ps)
    easy = np.linalg.cond(sh) < 100. and q @ np.linalg.solve(sh, q) < 0.7
    tol = 1e-10 if easy else 1e-6
    for _ in range(8):
        l = gen.nzvec(m.rng, n, 1., 1.)
        rho = q @ l + np.sqrt(l @ sh @ l)
        x = l / rho
        m.check('polar-set', abs((x - pc) @ inv @ (x - pc) - 1.) <= tol, radius2=(x - pc) @ inv @ (x - pc),
                center=q, shape=sh, polar=(pc, ps), dir=l)
        # the support of the polar decides membership in the original as well
        y = q + sh @ l / np.sqrt(l @ sh @ l)
        m.check('polar-set', abs(pc @ y + np.sqrt(y @ ps @ y) - 1.) <= tol, center=q, shape=sh, polar=(pc, ps))


def polar(m):
    rng = m.rng
    shp = gen.shape(rng)
    same = rng.randint(1, 7)
    objs = [make(rng, same if rng.randint(4) else gen.dim(rng, 5), frac(rng)) for _ in range(int(np.prod(shp)))]
    objs = gen.alias(rng, objs)
    before = [[x.copy() for x in o.parameters()] for o in objs]
    res = Ellipsoid.polar(gen.as_arg(rng, objs, shp))
    m.need('shape', np.shape(res) == shp, got=np.shape(res), expected=shp)
    flat = list(np.array(res).flatten())
    for o, p in zip(objs, flat):
        check_polar(m, o, p)
    back = np.array(Ellipsoid.polar(res)).flatten()
    for o, r, bf in zip(objs, back, before):
        m.close('bipolar', r.parameters()[0], bf[0], 1e-6)
        m.close('bipolar', r.parameters()[1], bf[1], 1e-6)
        m.check('operands', all(np.array_equal(x, y) for x, y in zip(o.parameters(), bf)))
    m.sig(before, shp)
    m.sample(first=before[0], polar=list(flat[0].parameters()), shape=shp)


def thin(m):
    """Condition numbers up to 1e13 (1e7 when rotated), compared entry by entry with the closed form."""
    rng = m.rng
    n = gen.dim(rng, 6)
    rot = bool(rng.randint(2))
    d = 10. ** rng.uniform(-9, 4, n) if not rot else 10. ** rng.uniform(-3.5, 3.5, n)
    v = gen.orth(rng, n) if rot else np.eye(n)[:, rng.permutation(n)]
    sh = gen.sym(v @ np.diag(d) @ v.T)
    u = rng.standard_normal(n)
    u *= gen.pick(rng, 0., rng.uniform(0., 0.9)) / np.linalg.norm(u)
    q = v @ (np.sqrt(d) * u)
    p = np.array(Ellipsoid.polar([Ellipsoid(q, sh, abs_tol=1e-9 if rot else 1e-13)])).flatten()[0]
    pc, ps = p.parameters()
    # in the axes of the shape: with g = 1 - u'u the polar is centred at -w/g, of the shape diag(1/d)/g + w w'/g^2
    w, g = u / np.sqrt(d), 1. - u @ u
    ec, es = -w / g, np.diag(1. / d) / g + np.outer(w, w) / g ** 2
    gc, gs = v.T @ pc, v.T @ ps @ v
    s = np.sqrt(np.diag(es)) if not rot else np.full(n, np.sqrt(np.max(np.diag(es))))
    tol = 1e-9 if not rot else 1e-7
    m.check('polar-thin', np.all(np.abs(gc - ec) <= tol * s * (1. / g)) and np.all(np.abs(gs - es) <= tol * np.outer(s, s) / g),
            center=q, shape=sh, got=(gc, gs), expected=(ec, es))
    m.sig(q, sh)


def rejected(m):
    rng = m.rng
    n = gen.dim(rng, 6)
    good = [make(rng, n, frac(rng)) for _ in range(rng.randint(0, 3))]

    def with_bad(b):
        a = good + [b]
        rng.shuffle(a)
        return a
    d = rng.uniform(0.5, 2., n)
    d[rng.randint(n)] = 0.
    o = gen.orth(rng, n)
    m.raises('rejected-degenerate', lambda: Ellipsoid.polar(with_bad(Ellipsoid(gen.sym(o @ np.diag(d) @ o.T)))))
    m.raises('rejected-degenerate', lambda: Ellipsoid.polar(with_bad(Ellipsoid(np.zeros((n, n))))))
    m.raises('rejected-degenerate', lambda: Ellipsoid.polar(with_bad(Ellipsoid())))
    for f in (1. + 1e-9, 1.001, 1.5, 4.):
        m.raises('rejected-origin', lambda: Ellipsoid.polar(with_bad(make(rng, n, f))), frac=f)
    # the origin exactly on the boundary, in numbers without rounding
    s = float(2. ** rng.randint(-3, 4))
    a = np.where(np.arange(n) == rng.randint(n), 1., 0.) * rng.choice([-1., 1.])
    with np.errstate(all='ignore'):
        m.raises('rejected-origin', lambda: Ellipsoid.polar(with_bad(Ellipsoid(s * a, s * s * np.eye(n)))), 'degenerateEllipsoid', scale=s, axis=a)
        w = np.diag(2. ** rng.randint(-2, 3, n))
        m.raises('rejected-origin', lambda: Ellipsoid.polar(with_bad(Ellipsoid(w @ a, w @ w))), 'degenerateEllipsoid', shape=w @ w, axis=a)
    m.sig(m.index)


CASES = [('large_polar', gen.large(polar, 20, 70), 12, 300),
         ('crowd_polar', gen.crowded(polar, 300), 5, 100),
         ('thin', thin, 150, 4000), ('polar', polar, 200, 5000), ('rejected', rejected, 40, 800)]
