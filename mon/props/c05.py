"""C05  Generated boundary points lie on the boundary and cover it."""
import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.conf.properties.Properties import Properties
from .. import gen

RULE = ('2-D and 3-D ellipsoids (full and degenerate, explicit or configured numbers of points) with every entry point '
        '(plain/support based, with and without grid, by number and by factor); each point is put into the ellipsoid '
        'equation, the grid is walked edge by edge; distinct by shape, form and number of points')
REQUIRED = ['on-boundary', 'count', 'covers', 'grid', 'support-attained', 'rejected', 'same-without-grid']


def on_boundary(m, q, sh, pts, what):
    d, v = np.linalg.eigh(sh)
    c = (pts - q) @ v
    pos = d > 1e-9
    r2 = np.sum(c[:, pos] ** 2 / d[pos], axis=1)
    if np.all(pos):
        m.check('on-boundary', np.all(np.abs(r2 - 1.) <= 1e-7), what=what, center=q, shape=sh, r2=r2)
    else:       # a flat ellipsoid is its own boundary
        m.check('on-boundary', np.all(r2 <= 1. + 1e-7) and np.all(np.abs(c[:, ~pos]) <= 1e-6), what=what, center=q, shape=sh)


def covers(m, q, sh, pts, frac, what):
    n = q.size
    ls = gen.dirs(m.rng, n, 12, 1., 1.)
    for l in ls.T:
        h = np.sqrt(max(0., l @ sh @ l))
        m.check('covers', np.max(pts @ l) >= q @ l + frac * h - 1e-6, what=what, center=q, shape=sh, dir=l, n=len(pts))


def loop(m, f, k):
    """A single closed loop over exactly the points 0..k-1."""
    f = np.array(f)
    ok = f.shape == (k, 2) and sorted(f[:, 0].tolist()) == list(range(k)) and sorted(f[:, 1].tolist()) == list(range(k))
    if ok:
        nxt = {int(a): int(b) for a, b in f}
        seen, i = 0, 0
        while True:
            i = nxt[i]
            seen += 1
            if i == 0 or seen > k:
                break
        ok = seen == k
    m.check('grid', ok, faces=f, points=k)


def closed_surface(m, f, k):
    f = np.array(f)
    ok = f.ndim == 2 and f.shape[1] == 3 and f.min() == 0 and f.max() == k - 1 and np.unique(f).size == k
    if ok:
        directed = {}
        for a, b, c in f.astype(int).tolist():
            ok = ok and len({a, b, c}) == 3
            for x, y in ((a, b), (b, c), (c, a)):
                directed[x, y] = directed.get((x, y), 0) + 1
        ok = ok and all(v == 1 and directed.get((y, x)) == 1 for (x, y), v in directed.items())
        ok = ok and k - len(directed) // 2 + len(f) == 2
    m.check('grid', ok, faces=f, points=k)


def make(rng, n, kw):
    sh = gen.spd(rng, n, 0.3, 5.) if rng.randint(4) else gen.psd(rng, n, rng.randint(0, n))
    if rng.randint(7) == 0:                 # nonnegative definite within its own tolerance
        sh, tol, _ = gen.loose(rng, n)
        kw = dict(kw, abs_tol=tol)
    return Ellipsoid(gen.center(rng, n), sh, **kw)


def points(m):
    rng = m.rng
    n = 2 if rng.randint(3) else 3
    kw = gen.settings(rng)
    if n == 3 and rng.randint(3):
        kw['n_plot_3d_points'] = int(rng.randint(5, 60)) if rng.randint(6) else int(gen.pick(rng, 163, 700))
    if n == 2 and rng.randint(12) == 0:
        kw['n_plot_2d_points'] = int(rng.randint(300, 2500))
    if rng.randint(3) == 0:
        Properties.set_n_plot_2d_points(37)
        Properties.set_n_plot_3d_points(45)
    e = make(rng, n, kw)
    q, sh = e.parameters()
    conf = kw.get('n_plot_%dd_points' % n, Properties.get_n_plot_2d_points() if n == 2 else Properties.get_n_plot_3d_points())
    Properties.init()                       # the object keeps its own number
    how = rng.randint(4)
    if how == 0:
        arg, want = {}, conf
    elif how == 1:
        want = int(rng.randint(3, 120) if rng.randint(10) else rng.randint(300, 3000)) if n == 2 else int(gen.pick(rng, 1, 20, 42, 43, 100, 162, 163))
        arg = dict(n_points=want)
    else:
        f = gen.pick(rng, 1, 0.5, 2., 1.5, 0.25, 1.37, 2, 6.)
        other = gen.pick(rng, 3.3, 0.15)
        fv = f if rng.randint(2) else (np.array([f, other]) if n == 2 else np.array([other, f]))
        if rng.randint(4) == 0:
            f = fv = None
        want = conf if f is None else int(np.floor(conf * float(f)))
        arg = dict(factor_vec=fv)
        while want < 3:
            f = fv = 2.
            arg, want = dict(factor_vec=2.), int(np.floor(conf * 2.))
    with_grid = rng.randint(2)
    fn = e.get_boundary if how < 2 else e.get_boundary_by_factor
    if with_grid:
        pts, f = fn(return_grid=True, **arg)
        m.close('same-without-grid', fn(**arg), pts, 1e-12)
    else:
        pts = fn(**arg)
        f = None
    m.need('count', pts.ndim == 2 and pts.shape[1] == n, shape=pts.shape)
    frac = np.cos(np.pi / len(pts)) if n == 2 else 0.93
    m.check('count', len(pts) == want if n == 2 else len(pts) >= want, got=len(pts), expected=want, how=how)
    on_boundary(m, q, sh, pts, 'get_boundary')
    covers(m, q, sh, pts, frac, 'get_boundary')
    if f is not None:
        (loop if n == 2 else closed_surface)(m, f, len(pts))
    # support-based form
    fn = e.get_rho_boundary if how < 2 else e.get_rho_boundary_by_factor
    bp, f, sup, ls = fn(**arg)
    m.need('count', bp.ndim == 2 and bp.shape[1] == n and ls.shape == bp.shape and np.size(sup) == len(bp),
           bp=bp.shape, ls=ls.shape, sup=np.shape(sup))
    k = len(bp) - 1                          # the first point closes the list
    m.check('count', k == want if n == 2 else k >= want, got=k, expected=want, how=how)
    m.close('grid', bp[-1], bp[0], 1e-12)
    m.close('grid', ls[-1], ls[0], 1e-12)
    (loop if n == 2 else closed_surface)(m, f, k)
    if how == 0:                             # a number left out is the object's own number
        m.check('count', np.shape(e.get_boundary()) == np.shape(e.get_boundary(conf)), conf=conf)
        m.check('count', np.shape(e.get_rho_boundary()[0]) == np.shape(e.get_rho_boundary(conf)[0]), conf=conf)
    h = np.array([q @ l + np.sqrt(max(0., l @ sh @ l)) for l in ls])
    # a rounding error of 1e-16 below the root shows as 1e-8
    m.check('support-attained', np.all(np.abs(np.array(sup).flatten() - h) <= 1e-7), sup=sup, expected=h)
    m.check('support-attained', np.all(np.abs(np.sum(bp * ls, axis=1) - h) <= 1e-6), got=np.sum(bp * ls, axis=1), expected=h)
    d = np.linalg.eigvalsh(sh)
    if d[0] > 1e-9:
        on_boundary(m, q, sh, bp, 'get_rho_boundary')
    gap = np.max(np.linalg.norm(np.diff(ls, axis=0), axis=1)) if n == 2 else 0.
    m.check('covers', n == 3 or gap <= 2 * np.sin(np.pi / k) + 1e-9, gap=gap, n=k)
    m.check('covers', np.allclose(np.linalg.norm(ls, axis=1), 1., atol=1e-9))
    m.sig(n, list(e.parameters()), want, how)
    m.sample(n=n, shape=sh, points=want, how=how)


def levels(m):
    """Factors that bring the number of points next to a size of the sphere grid."""
    rng = m.rng
    t = int(gen.pick(rng, 42, 42, 42, 162))
    conf = int(rng.randint(10, 400))
    f = float((t + gen.pick(rng, 0.9, 0.5, 0.1, -0.1, -0.5, 0.999, 1.001)) / conf)
    kw = dict(n_plot_3d_points=conf)
    e = make(rng, 3, kw)
    want = int(np.floor(conf * f))
    a = e.get_boundary(want)
    fv = gen.pick(rng, f, np.array([2., f]))
    b = e.get_boundary_by_factor(fv)
    m.check('count', np.shape(a) == np.shape(b) and len(a) == (42 if want <= 42 else 162 if want <= 162 else 642), conf=conf, factor=f,
            want=want, got=(np.shape(a), np.shape(b)))
    c, d = e.get_rho_boundary(want)[0], e.get_rho_boundary_by_factor(fv)[0]
    m.check('count', np.shape(c) == np.shape(d) and len(c) == len(a) + 1, conf=conf, factor=f, want=want, got=(np.shape(c), np.shape(d)))
    e = make(rng, 2, dict(n_plot_2d_points=conf))
    a, b = e.get_boundary_by_factor(f), e.get_rho_boundary_by_factor(f)[0]
    m.check('count', len(a) == want and len(b) == want + 1, conf=conf, factor=f, want=want, got=(len(a), len(b)))
    # many points, a product just above or below a whole number
    conf = int(rng.randint(500, 4000))
    t = int(rng.randint(500, 3000))
    f = float((t + gen.pick(rng, 1., -1.) * 10. ** rng.uniform(-7, -3)) / conf)
    want = int(np.floor(conf * f))
    e = make(rng, 2, dict(n_plot_2d_points=conf))
    a = e.get_boundary_by_factor(f) if rng.randint(2) else e.get_rho_boundary_by_factor(f)[0][1:]
    m.check('count', len(a) == want, conf=conf, factor=f, want=want, got=len(a))
    m.sig(conf, f)


def rejected(m):
    rng = m.rng
    for e in (Ellipsoid(np.eye(1)), Ellipsoid(np.eye(4)), Ellipsoid(np.zeros((5,)), np.eye(5)), Ellipsoid()):
        for fn in (e.get_boundary, e.get_rho_boundary, e.get_boundary_by_factor, e.get_rho_boundary_by_factor):
            m.raises('rejected', lambda: fn())
    e = Ellipsoid(gen.spd(rng, 2))
    for bad in (0, -3, 2.5):
        m.raises('rejected', lambda: e.get_boundary(bad), n=bad)
        m.raises('rejected', lambda: e.get_rho_boundary(bad), n=bad)
    m.sig(m.index)


CASES = [('levels', levels, 40, 600), ('points', points, 150, 4000), ('rejected', rejected, 4, 20)]
