"""C39  Results follow changes of coordinates and agree between operations."""
import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from .. import gen

RULE = ('random collections of ellipsoids and hyperplanes of dimension 1..13 described in two coordinate systems (rotated or '
        'reflected, translated, uniformly scaled by 1e-3..1e3, coordinates permuted), every operation done in both; chains of '
        'operations whose results must agree; distinct by content')
REQUIRED = ['numbers', 'support', 'membership', 'bigger', 'sum', 'polar', 'projection', 'boundary', 'negation', 'hyperplane', 'equality',
            'supporting-hyperplane', 'member-points', 'polar-duality', 'sum-projection', 'sum-negation', 'sum-containment',
            'nested-projection']


class Coords:
    """y = c O x + t"""

    def __init__(self, rng, n, linear=False):
        k = rng.randint(5)
        self.o = np.eye(n) if k == 0 else np.eye(n)[rng.permutation(n)] if k == 1 else gen.orth(rng, n)
        if k == 2:
            self.o = -self.o
        self.c = float(gen.pick(rng, 1., 1., 4., 0.25, 10. ** rng.uniform(-3, 3)))
        self.t = np.zeros(n) if linear or rng.randint(4) == 0 else gen.vec(rng, n) * 10. ** rng.uniform(-1, 2)

    def pts(self, x):
        x = np.asarray(x, dtype=float)
        return self.c * self.o @ x + (self.t if x.ndim == 1 else self.t[:, None])

    def ell(self, q, sh, kw):
        return Ellipsoid(self.pts(q), gen.sym(self.c ** 2 * self.o @ sh @ self.o.T), **kw)

    def hyp(self, v, s, kw):
        w = self.o @ v
        return Hyperplane(w, self.c * s + float(w @ self.t), **kw)


def pair(rng, n, cs):
    kw = gen.settings(rng)
    kw['abs_tol'] = 1e-9
    q, sh = gen.center(rng, n), gen.spd(rng, n)
    return Ellipsoid(q, sh, **kw), cs.ell(q, sh, kw)


def flat(x):
    return np.array(x).flatten()


def same(m, mech, e, f, cs, tol=1e-8, **kw):
    """f describes e in the other coordinates (kw: shape and centre transformed by the caller)."""
    q, sh = e.parameters()
    q2, sh2 = f.parameters()
    q = kw['q'] if 'q' in kw else cs.pts(q)
    sh = kw['sh'] if 'sh' in kw else cs.c ** 2 * cs.o @ sh @ cs.o.T
    sz = float(np.max(np.abs(sh))) if sh.size else 1.
    m.close(mech, sh2 / sz, sh / sz, tol, note='shape')
    m.close(mech, q2, q, tol, note='center')


def coords(m):
    """Every operation in two coordinate systems."""
    rng = m.rng
    n = gen.dim(rng, 7)
    cs = Coords(rng, n)
    k = int(gen.pick(rng, 1, 2, 3, 4, 6))
    ps = [pair(rng, n, cs) for _ in range(k)]
    a, b = [p[0] for p in ps], [p[1] for p in ps]
    m.sig([e.parameters() for e in a], cs.o, cs.c, cs.t)
    m.sample(first=a[0].parameters(), turn=cs.o, factor=cs.c, shift=cs.t)
    r = flat(Ellipsoid.volume(b)) / flat(Ellipsoid.volume(a)) / cs.c ** n
    m.close('numbers', r, np.ones(k), 1e-9, note='volume')
    for f, p in ((Ellipsoid.trace, 2), (Ellipsoid.min_eig, 2), (Ellipsoid.max_eig, 2)):
        m.close('numbers', flat(f(b)) / flat(f(a)) / cs.c ** p, np.ones(k), 1e-9, note=f.__name__)
    m.check('numbers', np.array_equal(Ellipsoid.dimension(a, return_rank=True), Ellipsoid.dimension(b, return_rank=True)))
    m.check('numbers', np.array_equal(Ellipsoid.is_degenerate(a), Ellipsoid.is_degenerate(b)))
    # support: value of y-direction O l is c * value + <O l, t>
    nl = int(gen.pick(rng, 1, k, k))
    ls = gen.dirs(rng, n, nl)
    lo = cs.o @ ls
    s1, x1 = Ellipsoid.rho(a, ls)
    s2, x2 = Ellipsoid.rho(b, lo)
    add = (cs.t @ lo)
    big = 1. + np.max(np.abs(np.array(s2))) + cs.c * np.max(np.abs(np.array(s1)))
    m.close('support', flat(s2) / big, (cs.c * flat(s1) + (add if add.size == k else np.full(k, add[0]))) / big, 1e-10)
    x1, x2 = np.array(x1).reshape(n, -1), np.array(x2).reshape(n, -1)
    m.close('support', x2, cs.pts(x1), 1e-9)
    # membership of points clearly inside, clearly outside
    pts, ok = [], []
    for _ in range(6):
        e = a[rng.randint(k)]
        q, sh = e.parameters()
        x = q + np.linalg.cholesky(sh) @ gen.nzvec(rng, n, 1., 1.) * gen.pick(rng, 0.3, 0.95, 1.05, 3.)
        lev = [float((x - f.parameters()[0]) @ np.linalg.solve(f.parameters()[1], x - f.parameters()[0])) for f in a]
        if min(abs(v - 1.) for v in lev) > 1e-2:
            pts.append(x)
            ok.append(lev)
    if pts:
        pts = np.stack(pts, axis=1)
        for mode in ('u', 'i'):
            g1, g2 = flat(Ellipsoid.is_internal(a, pts, mode)), flat(Ellipsoid.is_internal(b, cs.pts(pts), mode))
            m.check('membership', np.array_equal(g1, g2), first=g1, second=g2, mode=mode, levels=ok)
    if k > 1:
        i, j = rng.choice(k, 2, replace=False)
        lam = np.linalg.eigvals(np.linalg.solve(a[i].parameters()[1], a[j].parameters()[1])).real.max()
        if abs(lam - 1.) > 1e-2:
            f1, f2 = bool(flat(a[i].is_bigger(a[j]))[0]), bool(flat(b[i].is_bigger(b[j]))[0])
            m.check('bigger', f1 == f2 == (lam < 1.), first=f1, second=f2, largest=lam)
        for r1, r2 in zip(flat(Ellipsoid.minksum_ea(a, ls[:, :1])), flat(Ellipsoid.minksum_ea(b, lo[:, :1]))):
            q, sh = r1.parameters()
            same(m, 'sum', r1, r2, cs, q=cs.c * cs.o @ q + k * cs.t)
        tr = Coords(rng, n)
        tr.o, tr.c = np.eye(n), float(gen.pick(rng, 1., 4., 0.25, 64.))
        bt = [tr.ell(*(e.parameters() + ({'abs_tol': 1e-9},))) for e in a]
        for r1, r2 in zip(flat(Ellipsoid.minksum_ia(a, ls)), flat(Ellipsoid.minksum_ia(bt, ls))):
            q, sh = r1.parameters()
            same(m, 'sum', r1, r2, tr, 1e-7, q=tr.c * q + k * tr.t)
    # negation
    for e, f in zip(flat(Ellipsoid.uminus(a)), flat(Ellipsoid.uminus(b))):
        same(m, 'negation', e, f, cs, q=cs.c * cs.o @ e.parameters()[0] - cs.t)
    # projection onto turned directions: the same coordinates, scaled
    r = int(rng.randint(1, n + 1))
    basis = gen.orth(rng, n)[:, :r] * np.exp(rng.uniform(-2, 2, r))
    unit = basis / np.linalg.norm(basis, axis=0)
    for e, f in zip(flat(Ellipsoid.get_projection(a, basis)), flat(Ellipsoid.get_projection(b, cs.o @ basis))):
        q, sh = e.parameters()
        same(m, 'projection', e, f, cs, q=cs.c * q + (cs.o @ unit).T @ cs.t, sh=cs.c ** 2 * sh)
    # boundaries: the sampled directions are fixed, so only shift and factor carry over point by point
    if n in (2, 3):
        sc = Coords(rng, n)
        sc.o = np.eye(n)
        f = sc.ell(*(a[0].parameters() + ({'abs_tol': 1e-9},)))
        np_ = int(rng.randint(8, 60))
        size = (1. + np.abs(sc.c)) * (1. + float(np.max(np.abs(a[0].parameters()[1])))) + np.linalg.norm(sc.t)
        m.close('boundary', np.array(f.get_boundary(np_)) / size, sc.pts(np.array(a[0].get_boundary(np_)).T).T / size, 1e-12)
        m.close('boundary', np.array(f.get_rho_boundary(np_)[0]) / size,
                sc.pts(np.array(a[0].get_rho_boundary(np_)[0]).T).T / size, 1e-12)
    # equality survives the change of coordinates
    b2 = [cs.ell(*(e.parameters() + ({'abs_tol': 1e-9},))) for e in a]
    m.check('equality', bool(np.all(flat(Ellipsoid.is_equal(b, b2)[0]))))


def units(m):
    """The same objects in units of length larger or smaller by many orders of magnitude."""
    rng = m.rng
    n = gen.dim(rng, 6)
    c = float(10. ** (rng.uniform(3, 9) * rng.choice([-1., 1.])))
    o = gen.orth(rng, n) if rng.randint(2) else np.eye(n)
    t = np.zeros(n) if rng.randint(2) else gen.vec(rng, n)
    k = int(rng.randint(1, 5))
    data = [(gen.center(rng, n), gen.spd(rng, n)) for _ in range(k)]
    tol = 1e-9 * min(1., c * c)
    a = [Ellipsoid(q, sh, abs_tol=1e-9) for q, sh in data]
    b = [Ellipsoid(c * (o @ q + t), c * c * gen.sym(o @ sh @ o.T), abs_tol=tol) for q, sh in data]
    kw = dict(factor=c, turn=o, shift=t)
    m.close('numbers', flat(Ellipsoid.volume(b)) / flat(Ellipsoid.volume(a)) / c ** n, np.ones(k), 1e-9, note='volume', **kw)
    for f in (Ellipsoid.trace, Ellipsoid.min_eig, Ellipsoid.max_eig):
        m.close('numbers', flat(f(b)) / flat(f(a)) / c ** 2, np.ones(k), 1e-9, note=f.__name__, **kw)
    m.check('numbers', np.array_equal(Ellipsoid.dimension(a, return_rank=True), Ellipsoid.dimension(b, return_rank=True)), **kw)
    m.check('numbers', np.array_equal(Ellipsoid.is_degenerate(a), Ellipsoid.is_degenerate(b)), **kw)
    ls = np.stack([gen.nzvec(rng, n) for _ in range(3)], axis=1)
    lo = o @ ls
    for e, f in zip(a, b):
        s1, x1 = Ellipsoid.rho([e], ls)
        s2, x2 = Ellipsoid.rho([f], lo)
        m.close('support', flat(s2) / c, flat(s1) + t @ lo, 1e-9, **kw)
        m.close('support', np.array(x2) / c, o @ np.array(x1) + t[:, None], 1e-9, **kw)
    pts, lev = [], []
    for _ in range(8):
        q, sh = data[rng.randint(k)]
        x = q + np.linalg.cholesky(sh) @ gen.nzvec(rng, n, 1., 1.) * gen.pick(rng, 0.05, 0.3, 0.95, 1.05, 3.)
        ls_ = [float((x - p) @ np.linalg.solve(r, x - p)) for p, r in data]
        if min(abs(v - 1.) for v in ls_) > 1e-2:
            pts.append(x)
            lev.append(ls_)
    if pts:
        pts = np.stack(pts, axis=1)
        for mode in ('u', 'i'):
            exp = [(any if mode == 'u' else all)(v < 1. for v in l) for l in lev]
            g1, g2 = flat(Ellipsoid.is_internal(a, pts, mode)), flat(Ellipsoid.is_internal(b, c * (o @ pts + t[:, None]), mode))
            m.check('membership', g1.tolist() == exp and g2.tolist() == exp, first=g1, second=g2, mode=mode, expected=exp, **kw)
    if k > 1:
        for f, dirs, tol_ in ((Ellipsoid.minksum_ea, lo, 1e-8), (Ellipsoid.minksum_ia, lo, 1e-6)):
            for r1, r2, l in zip(flat(f(a, ls)), flat(f(b, dirs)), ls.T):
                (q1, h1), (q2, h2) = r1.parameters(), r2.parameters()
                m.close('sum', q2 / c, o @ q1 + k * t, 1e-9, note=f.__name__, **kw)
                if f == Ellipsoid.minksum_ea or np.array_equal(o, np.eye(n)):
                    z = float(np.max(np.abs(h1)))
                    m.close('sum', h2 / c / c / z, o @ h1 @ o.T / z, tol_, note=f.__name__, **kw)
        i, j = rng.choice(k, 2, replace=False)
        lam = np.linalg.eigvals(np.linalg.solve(data[i][1], data[j][1])).real.max()
        if abs(lam - 1.) > 1e-2:
            m.check('bigger', bool(flat(a[i].is_bigger(a[j]))[0]) == bool(flat(b[i].is_bigger(b[j]))[0]) == (lam < 1.), largest=lam, **kw)
    r = int(rng.randint(1, n + 1))
    basis = gen.orth(rng, n)[:, :r]
    wide = [Ellipsoid(*f.parameters(), abs_tol=1e-9) for f in b]      # orthogonality has no unit of length
    for e, f in zip(flat(Ellipsoid.get_projection(a, basis)), flat(Ellipsoid.get_projection(wide, o @ basis))):
        (q1, h1), (q2, h2) = e.parameters(), f.parameters()
        m.close('projection', q2 / c, q1 + (o @ basis).T @ t, 1e-9, **kw)
        m.close('projection', h2 / c / c, h1, 1e-9, **kw)
    for e, f in zip(flat(Ellipsoid.uminus(a)), flat(Ellipsoid.uminus(b))):
        m.close('negation', f.parameters()[0] / c, o @ e.parameters()[0] - t, 1e-9, **kw)
        m.close('negation', f.parameters()[1] / c / c, o @ e.parameters()[1] @ o.T, 1e-9, **kw)
    # the polar of a centred ellipsoid, and of one around the origin, shrinks as the ellipsoid grows
    q = np.zeros(n) if rng.randint(2) else np.linalg.cholesky(data[0][1]) @ gen.nzvec(rng, n, 1., 1.) * 0.4
    p1 = flat(Ellipsoid.polar([Ellipsoid(q, data[0][1], abs_tol=1e-9)]))[0].parameters()
    if abs(np.log10(c)) < 3.5:              # results have the standing tolerances
        p2 = flat(Ellipsoid.polar([Ellipsoid(c * q, c * c * data[0][1], abs_tol=tol)]))[0].parameters()
        m.close('polar', p2[0] * c, p1[0], 1e-8, **kw)
        m.close('polar', p2[1] * c * c, p1[1], 1e-8, **kw)
    if n in (2, 3):
        e, f = a[0], Ellipsoid(c * (data[0][0] + t), c * c * data[0][1], abs_tol=tol)
        np_ = int(rng.randint(8, 60))
        m.close('boundary', np.array(f.get_boundary(np_)) / c, np.array(e.get_boundary(np_)) + t, 1e-9, **kw)
        m.close('boundary', np.array(f.get_rho_boundary(np_)[0]) / c, np.array(e.get_rho_boundary(np_)[0]) + t, 1e-9, **kw)
    # hyperplanes: points on one and clearly off it
    v = gen.nzvec(rng, n, 0.5, 3.)
    s = float(rng.uniform(-3, 3))
    x = v * s / float(v @ v)
    x = x + (np.eye(n) - np.outer(v, v) / (v @ v)) @ gen.vec(rng, n)
    h1, h2 = Hyperplane(v, s, abs_tol=1e-8), Hyperplane(o @ v, c * (s + float(o @ v @ t)), abs_tol=1e-8 * c)
    for off in (0., 1e-2, -1e-2):
        y = x + off * v
        g = [bool(flat(h.contains(h, z[:, None]))[0]) for h, z in ((h1, y), (h2, c * (o @ y + t)))]
        m.check('hyperplane', g == [off == 0.] * 2, got=g, off=off, **kw)
    w = gen.pick(rng, v, -v, gen.nzvec(rng, n, 0.5, 3.))
    d = min(np.max(np.abs(w / np.linalg.norm(w) - z * v / np.linalg.norm(v))) for z in (1., -1.))
    if not 1e-9 < d < 1e-2:
        par = bool(d < 1e-3)
        for z in (1., c, 1. / c):
            g = [bool(flat(x_.is_parallel(x_, y_))[0]) for x_, y_ in ((Hyperplane(v, s), Hyperplane(z * w, s)), (Hyperplane(z * w, s), Hyperplane(v, 0.)))]
            m.check('hyperplane', g == [par, par], got=g, expected=par, first=v, second=z * w)
    m.sig(data, c, o, t)


def linear(m):
    """Polars: the polar of c O E is O E* / c."""
    rng = m.rng
    n = gen.dim(rng, 7)
    cs = Coords(rng, n, True)
    cs.c = float(np.clip(cs.c, 0.05, 20.))
    k = int(gen.pick(rng, 1, 2, 3))
    a, b = [], []
    for _ in range(k):
        sh = gen.spd(rng, n)
        q = np.linalg.cholesky(sh) @ gen.nzvec(rng, n, 0.05, 0.8)
        a.append(Ellipsoid(q, sh))
        b.append(cs.ell(q, sh, {}))
    m.sig([e.parameters() for e in a], cs.o, cs.c)
    pa, pb = flat(Ellipsoid.polar(a)), flat(Ellipsoid.polar(b))
    inv = Coords(rng, n, True)
    inv.o, inv.c = cs.o, 1. / cs.c
    for e, f in zip(pa, pb):
        same(m, 'polar', e, f, inv)
    # duality: the support value of the polar is the gauge of the original
    for e, p in zip(a, pa):
        q, sh = e.parameters()
        l = gen.nzvec(rng, n)
        s, x = Ellipsoid.rho([p], l.reshape(-1, 1))
        s = float(flat(s)[0])
        z = l / s - q                                # l / gauge(l) lies on the boundary
        m.check('polar-duality', s > 0. and abs(float(z @ np.linalg.solve(sh, z)) - 1.) <= 1e-8, value=s, dir=l, center=q, shape=sh)
    # polars reverse inclusion
    q, sh = a[0].parameters()
    i1 = Ellipsoid(np.zeros(n), sh)
    f = float(gen.pick(rng, 0.3, 0.9, 1.2, 4.))
    i2 = Ellipsoid(np.zeros(n), f * sh)
    r = [flat(Ellipsoid.polar([x]))[0] for x in (i1, i2)]
    m.check('polar-duality', bool(flat(i1.is_bigger(i2))[0]) == bool(flat(r[1].is_bigger(r[0]))[0]) == (f < 1.), factor=f, shape=sh)


def chain(m):
    """Operations agree with one another."""
    rng = m.rng
    n = gen.dim(rng, 7)
    k = int(gen.pick(rng, 2, 2, 3, 5))
    a = [Ellipsoid(gen.center(rng, n), gen.spd(rng, n), **dict(gen.settings(rng), abs_tol=1e-9)) for _ in range(k)]
    m.sig([e.parameters() for e in a])
    l = gen.nzvec(rng, n)
    e = a[0]
    s, x = Ellipsoid.rho([e], l.reshape(-1, 1))
    s, x = float(flat(s)[0]), flat(x)
    q, sh = e.parameters()
    # the supporting hyperplane
    hp = Hyperplane(l, s, abs_tol=1e-7 * (1. + abs(s)))
    m.check('supporting-hyperplane', bool(flat(Hyperplane.contains(hp, x.reshape(-1, 1)))[0]), point=x, normal=l, shift=s)
    m.check('supporting-hyperplane', not bool(flat(Hyperplane.contains(hp, q.reshape(-1, 1)))[0]), point=q, normal=l, shift=s)
    s2 = float(flat(Ellipsoid.rho([e], -l.reshape(-1, 1))[0])[0])
    par = Hyperplane(-l, s2)
    m.check('supporting-hyperplane', bool(flat(Hyperplane.is_parallel(hp, par))[0]) and
            not bool(flat(Hyperplane.is_equal(hp, par)[0])[0]), normal=l, shifts=(s, s2))
    sn = float(flat(Ellipsoid.rho(flat(Ellipsoid.uminus([e])), l.reshape(-1, 1))[0])[0])
    m.close('negation', sn, s2, 1e-10)
    # points of the ellipsoid are members, points beyond are not
    pts = np.stack([q, 0.999 * x + 0.001 * q, q + 0.999 * (q - x)], axis=1)
    m.check('member-points', bool(np.all(flat(Ellipsoid.is_internal([e], pts, 'i')))), points=pts)
    m.check('member-points', not bool(np.any(flat(Ellipsoid.is_internal([e], np.stack([q + 1.001 * (x - q), q - 1.001 * (x - q)], axis=1), 'u')))))
    if n in (2, 3):
        bp = np.array(e.get_boundary(int(rng.randint(8, 60))))
        d = bp - q
        m.check('member-points', bool(np.all(flat(Ellipsoid.is_internal([e], (q + 0.999 * d).T, 'i')))) and
                not bool(np.any(flat(Ellipsoid.is_internal([e], (q + 1.001 * d).T, 'i')))) and
                float(np.max(bp @ l)) <= s + 1e-8 * (1 + abs(s)), shape=sh, center=q)
    # outer and inner sums
    ea, ia = flat(Ellipsoid.minksum_ea(a, l))[0], flat(Ellipsoid.minksum_ia(a, l))[0]
    m.close('sum-containment', ea.get_center_vec(), ia.get_center_vec(), 1e-10)
    t = flat(Ellipsoid.rho([ea, ia], l.reshape(-1, 1))[0])
    tot = float(np.sum(flat(Ellipsoid.rho(a, l.reshape(-1, 1))[0])))
    m.close('sum-containment', t / (1. + abs(tot)), np.full(2, tot) / (1. + abs(tot)), 1e-8)
    grown = Ellipsoid(ea.get_center_vec(), 1.0001 * ea.get_shape_mat())
    m.check('sum-containment', bool(flat(grown.is_bigger(ia))[0]), outer=ea.parameters(), inner=ia.parameters())
    for f in a:
        m.check('sum-containment', bool(flat(ea.is_bigger(f))[0]))
    # negation and projection go through sums
    un = flat(Ellipsoid.minksum_ea(Ellipsoid.uminus(a), -l))[0]
    m.close('sum-negation', un.get_shape_mat(), ea.get_shape_mat(), 1e-9)
    m.close('sum-negation', un.get_center_vec(), -ea.get_center_vec(), 1e-9)
    r = int(rng.randint(1, n + 1))
    basis = gen.orth(rng, n)[:, :r]
    z = gen.nzvec(rng, r)
    p1 = flat(Ellipsoid.get_projection([flat(Ellipsoid.minksum_ea(a, basis @ z))[0]], basis))[0]
    p2 = flat(Ellipsoid.minksum_ea(Ellipsoid.get_projection(a, basis), z))[0]
    m.close('sum-projection', p1.get_shape_mat(), p2.get_shape_mat(), 1e-8)
    m.close('sum-projection', p1.get_center_vec(), p2.get_center_vec(), 1e-9)
    # projecting in two steps or in one
    r2 = int(rng.randint(1, r + 1))
    b2 = gen.orth(rng, r)[:, :r2]
    o1 = flat(Ellipsoid.get_projection(Ellipsoid.get_projection([e], basis), b2))[0]
    o2 = flat(Ellipsoid.get_projection([e], basis @ b2))[0]
    m.close('nested-projection', o1.get_shape_mat(), o2.get_shape_mat(), 1e-8)
    m.close('nested-projection', o1.get_center_vec(), o2.get_center_vec(), 1e-9)
    vol = flat(Ellipsoid.volume([e, o2]))
    m.check('nested-projection', bool(np.all(vol > 0.)))


def hyper(m):
    rng = m.rng
    n = gen.dim(rng, 7, lo=2)
    cs = Coords(rng, n)
    k = int(gen.pick(rng, 1, 2, 4))
    kw = dict(abs_tol=1e-5)
    big = 1. + cs.c + np.linalg.norm(cs.t)
    data = [(gen.nzvec(rng, n, 0.5, 2.), float(rng.uniform(-3, 3))) for _ in range(k)]
    if k > 1:
        f = float(gen.pick(rng, -1., 2.))
        data[1] = (data[0][0] * f, data[0][1] * f + float(gen.pick(rng, 0., 0., 1.)))
    a = [Hyperplane(v, s, **kw) for v, s in data]
    b = [cs.hyp(v, s, dict(abs_tol=1e-5 * min(1., cs.c))) for v, s in data]
    m.sig(data, cs.o, cs.c, cs.t)
    i = rng.randint(k)
    v, s = data[i]
    x = gen.vec(rng, n)
    x = x + v * (s + float(gen.pick(rng, 0., 0., 1., -0.01)) - v @ x) / (v @ v)
    g1 = flat(Hyperplane.contains(a, x.reshape(-1, 1)))
    exp = np.array([abs(w @ x - t) < 1e-8 for w, t in data])
    dist = min([abs(w @ x - t) for (w, t), on in zip(data, exp) if not on] or [1.])
    if dist > 1e-3 and big < 1e5:
        g2 = flat(Hyperplane.contains(b, cs.pts(x).reshape(-1, 1)))
        m.check('hyperplane', np.array_equal(g1, exp) and np.array_equal(g2, exp), first=g1, second=g2, expected=exp, point=x, data=data)
    if k > 1:
        p1, p2 = flat(Hyperplane.is_parallel(a[0], a[1:])), flat(Hyperplane.is_parallel(b[0], b[1:]))
        m.check('hyperplane', np.array_equal(p1, p2) and bool(p1[0]), first=p1, second=p2)
    for h1, h2 in zip(flat(Hyperplane.uminus(a)), flat(Hyperplane.uminus(b))):
        w, t = h1.parameters()
        w2, t2 = h2.parameters()
        m.close('hyperplane', w2, cs.o @ w, 1e-12)
        m.close('hyperplane', t2, cs.c * t + (cs.o @ w) @ cs.t, 1e-12)
    m.check('hyperplane', np.array_equal(Hyperplane.dimension(a), Hyperplane.dimension(b)))


CASES = [('coords', coords, 160, 5000), ('linear', linear, 80, 3000), ('units', units, 100, 3500), ('chain', chain, 140, 5000), ('hyper', hyper, 80, 3000)]
