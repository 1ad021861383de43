"""C26  Support values convert to boundaries and geometric differences exactly."""
import itertools
import numpy as np
from scipy.optimize import linprog
from scipy.spatial import ConvexHull
from ellipy.gras.geom.geom import circle_part
from ellipy.gras.geom.tri.tri import sphere_tri
from ellipy.gras.geom.sup.sup import sup_2_boundary_2, sup_2_boundary_3, sup_geom_diff_2d, sup_geom_diff_3d
from .. import gen

RULE = ('random direction sets (uniform, irregular, unordered, unnormalised, partial fans) with support values of polytopes, '
        'ellipsoids and arbitrary positive values at scales 1e-14..1e9; supports of the greatest set found by enumerating the '
        'vertices of the intersection of the half-spaces, and by linear programming for unbounded ones; distinct by content')
REQUIRED = ['boundary-2d', 'boundary-3d', 'difference-2d', 'difference-3d', 'not-above', 'already-support', 'scale',
            'empty-interior', 'size-rejected', 'order']


def vertices(d, l):
    k, n = l.shape
    idx = np.array(list(itertools.combinations(range(n), k)))
    a = np.transpose(l[:, idx], (1, 2, 0))
    b = d[idx]
    ok = np.abs(np.linalg.det(a)) > 1e-9
    v = np.linalg.solve(a[ok], b[ok])
    return v[np.all(v @ l <= d + 1e-9 * (1 + np.abs(v).max(1))[:, None], axis=1)]


def ring(rng):
    while True:
        n = rng.randint(4, 16) if rng.randint(12) else rng.randint(16, 32)
        k = rng.randint(3)
        if k == 0:
            phi = np.arange(n) * 2 * np.pi / n + rng.uniform(0, 1)
        else:
            phi = np.sort(rng.uniform(0, 2 * np.pi, n))
        s = np.sort(phi)
        g = np.diff(np.r_[s, s[0] + 2 * np.pi])
        if g.max() > 2.7 or g.min() < 2e-2:
            continue
        if k == 2:
            phi = phi[rng.permutation(n)]
        elif rng.randint(2):
            phi = np.roll(phi, rng.randint(n))
            phi = phi[::-1] if rng.randint(2) else phi
        l = np.array([np.cos(phi), np.sin(phi)])
        return l * rng.uniform(0.5, 2, n) if rng.randint(3) == 0 else l


def ball(rng):
    while True:
        if rng.randint(4) == 0:
            l = sphere_tri(0)[0].T @ np.eye(12)
            l = gen.orth(rng, 3) @ l
        else:
            l = rng.standard_normal((3, rng.randint(7, 15) if rng.randint(12) else rng.randint(15, 28)))
            l /= np.linalg.norm(l, axis=0)
        if ConvexHull(l.T).equations[:, -1].max() < -0.12:
            return l


def values(rng, l):
    n = l.shape[1]
    nl = np.linalg.norm(l, axis=0)
    k = rng.randint(3)
    if k == 0:
        return rng.uniform(0.4, 2, n) * nl
    if k == 1:
        return rng.uniform(0.95, 1.05, n) * nl
    q = gen.spd(rng, len(l), 0.4, 3.)
    return np.sqrt(np.sum(l * (q @ l), 0))


def vec_form(rng, x):
    return gen.pick(rng, x.copy(), x.copy(), x.reshape(1, -1).copy(), x.reshape(-1, 1).copy())


def differences(dim):
    fn = sup_geom_diff_2d if dim == 2 else sup_geom_diff_3d
    mech = 'difference-%dd' % dim

    def case(m):
        rng = m.rng
        l = ring(rng) if dim == 2 else ball(rng)
        n = l.shape[1]
        d = values(rng, l)
        sub = rng.uniform(-1, 3, n)
        exp = np.max(vertices(d, l) @ l, axis=0)
        form = rng.randint(2)
        got = fn(*((vec_form(rng, d + sub), vec_form(rng, sub)) if form else (d + sub, sub)), l.copy())
        m.close(mech, got, exp, 1e-7, d=d, l=l)
        m.check('not-above', np.all(got <= d * (1 + 1e-9) + 1e-9), got=got, d=d, l=l)
        # a difference that is a support function is returned as it is
        p = rng.standard_normal((rng.randint(dim + 2, 12), dim))
        p = p / np.linalg.norm(p, axis=1)[:, None] * rng.uniform(0.5, 2)
        s = np.max(p @ l, axis=0)
        if s.min() > 1e-2:
            m.close('already-support', fn(s + sub, sub, l.copy()), s, 1e-8, points=p, l=l)
        q = gen.spd(rng, dim, 0.3, 3.)
        s = np.sqrt(np.sum(l * (q @ l), 0))
        if rng.randint(2):
            c = rng.standard_normal(dim)
            s = s + l.T @ (c * (0.5 * np.sqrt(0.3) / np.linalg.norm(c)))
        m.close('already-support', fn(s + sub, sub, l.copy()), s, 1e-8, q=q, l=l)
        # scaling of the sets, permutation of the directions
        sc = 10. ** rng.randint(-14, 10)
        m.close('scale', fn(sc * d, np.zeros(n), l.copy()) / sc, exp, 1e-7, scale=sc, d=d, l=l)
        o = rng.permutation(n)
        m.close('order', fn((d + sub)[o], sub[o], l[:, o].copy()), exp[o], 1e-7, d=d, l=l, order=o)
        m.sig(d, l)
        m.sample(d=d, l=l, got=got)
    return case


def fans(m):
    """Directions on one side only: the set is unbounded, its supports on the given directions are not."""
    rng = m.rng
    dim = int(gen.pick(rng, 2, 3))
    n = rng.randint(dim + 2, 12)
    if dim == 2:
        phi = np.sort(rng.uniform(0.1, np.pi - 0.1, n))
        if np.diff(phi).min() < 2e-2 or phi[-1] - phi[0] < 0.5:
            m.trivial = True
            return
        l = np.array([np.cos(phi), np.sin(phi)])
    else:
        l = rng.standard_normal((3, n))
        l[2] = np.abs(l[2]) + 0.2
        l /= np.linalg.norm(l, axis=0)
    d = rng.uniform(0.5, 1.5, n)
    exp = np.array([linprog(d, A_eq=l, b_eq=l[:, i], bounds=(0, None)).fun for i in range(n)])
    fn = sup_geom_diff_2d if dim == 2 else sup_geom_diff_3d
    got = fn(d + 1., np.ones(n), l.copy())
    m.close('difference-%dd' % dim, got, exp, 1e-6, d=d, l=l)
    m.check('not-above', np.all(got <= d * (1 + 1e-9)), got=got, d=d, l=l)
    m.sig(d, l)


def bound2(m):
    rng = m.rng
    l = ring(rng)
    if rng.randint(3) == 0:
        l = circle_part(gen.many(rng, 80, 900)).T if rng.randint(3) else circle_part(int(rng.randint(80, 900))).T
    if rng.randint(4) == 0:                          # neighbours hardly different
        l = np.repeat(l, 2, axis=1) + 10. ** rng.uniform(-5, -2) * rng.standard_normal((2, 2 * l.shape[1]))
    n = l.shape[1]
    ok = [abs(np.linalg.det(np.c_[l[:, i], l[:, (i + 1) % n]])) > 1e-5 * np.linalg.norm(l[:, i]) * np.linalg.norm(l[:, (i + 1) % n])
          for i in range(n)]
    s = values(rng, l) + rng.uniform(-1, 1)
    got = sup_2_boundary_2(l.T.copy(), s.copy())
    m.need('boundary-2d', np.shape(got) == (n, 2), got=got)
    for i in range(n):
        if ok[i]:
            j = (i + 1) % n
            m.close('boundary-2d', got[i], np.linalg.solve(l[:, [i, j]].T, s[[i, j]]), 1e-8, i=i, l=l, s=s)
    # supports of a single point, some neighbours (also the last and the first) hardly different
    phi = np.sort(rng.uniform(0, 2 * np.pi, rng.randint(3, 12)))
    phi = np.sort(np.concatenate([phi, phi[:rng.randint(1, phi.size)] + 10. ** rng.uniform(-6.3, -4)]))
    phi = np.roll(phi, rng.randint(phi.size))
    p = rng.standard_normal(2)
    l2 = np.stack([np.cos(phi), np.sin(phi)], axis=1)
    sep = np.abs(np.sin(np.roll(phi, -1) - phi))
    got = sup_2_boundary_2(l2.copy(), l2 @ p)
    m.check('boundary-2d', np.all(np.max(np.abs(got - p), axis=1) <= 1e-10 + 1e-14 / sep), got=got, point=p, angles=phi)
    q = gen.spd(rng, 2)
    m.sig(l, s, q)


def bound3(m):
    rng = m.rng
    k = rng.randint(5)
    if k == 0:                                       # thin faces
        v = np.repeat(gen.orth(rng, 3), 3, axis=0) + 10. ** rng.uniform(-5, -1) * rng.standard_normal((9, 3))
        f = np.arange(9).reshape(3, 3)
    elif k < 3:
        v, f = sphere_tri(int(rng.randint(0, 3)))
        v = v @ gen.orth(rng, 3)
        f = f[rng.permutation(len(f))[:rng.randint(1, 60)]]
    else:
        v = ball(rng).T * rng.uniform(0.5, 2)
        f = ConvexHull(v).simplices
    s = values(rng, v.T)
    f = np.array([x[rng.permutation(3)] for x in f])
    got = sup_2_boundary_3(v.copy(), s.copy(), f.copy())
    m.need('boundary-3d', np.shape(got) == (len(f), 3), got=got)
    for i, x in enumerate(f):
        if np.linalg.cond(v[x]) < 1e5:
            m.close('boundary-3d', got[i], np.linalg.solve(v[x], s[x]), 1e-8, face=x, v=v[x], s=s[x])
    m.sig(v, f, s)


def whole(m):
    """Directions and supports given as whole numbers of any type."""
    rng = m.rng
    dim = int(gen.pick(rng, 2, 3))
    fn = sup_geom_diff_2d if dim == 2 else sup_geom_diff_3d
    tp = gen.pick(rng, np.int8, np.int16, np.int32)
    l = np.hstack((np.eye(dim), -np.eye(dim), rng.randint(-3, 4, (dim, 4)))).astype(tp)
    l = l[:, np.any(l != 0, axis=0)]
    l = l[:, rng.permutation(l.shape[1])]
    n = l.shape[1]
    tp = gen.pick(rng, np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32)
    hi = np.iinfo(tp).max
    sub, d = rng.randint(0, 20, n), rng.randint(1, min(hi, 1000) - 20, n)
    if np.iinfo(tp).min < 0 and rng.randint(2):
        sub = sub - min(hi, 1000)           # negative supports: the difference need not fit the type
    r1, r2 = (sub + d).astype(tp), sub.astype(tp)
    if rng.randint(2):
        d = d + r2.astype(float) * 0
    exp = np.max(vertices(d.astype(float), l.astype(float)) @ l.astype(float), axis=0)
    got = fn(r1, r2, l)
    m.close('difference-%dd' % dim, got, exp, 1e-7, d=d, l=l, types=(r1.dtype, l.dtype))
    b1 = r1.copy()
    b1[rng.randint(n)] = 0
    if np.any(b1.astype(float) - r2.astype(float) <= 0):
        m.raises('empty-interior', lambda: fn(b1, r2, l), 'wrongInput:rho_diff_vec', r1=b1, r2=r2)
    k = int(rng.randint(2, 8))
    v = gen.whole(rng, k, 2)
    s = gen.whole(rng, k)
    fv, fs = v.astype(float), s.astype(float)
    got = sup_2_boundary_2(v.copy(), s.copy())
    for i in range(k):
        a = fv[[i, (i + 1) % k]]
        if np.linalg.cond(a) < 1e4:
            m.close('boundary-2d', got[i], np.linalg.solve(a, fs[[i, (i + 1) % k]]), 1e-8, v=v, s=s, i=i)
    v = gen.whole(rng, 3, 3)
    s = gen.whole(rng, 3)
    if np.linalg.cond(v.astype(float)) < 1e4:
        m.close('boundary-3d', sup_2_boundary_3(v, s, np.array([[0, 1, 2]]))[0], np.linalg.solve(v.astype(float), s.astype(float)),
                1e-8, v=v, s=s)
    m.sig(l, r1, r2, v, s)


def rejected(m):
    rng = m.rng
    for dim, fn in ((2, sup_geom_diff_2d), (3, sup_geom_diff_3d)):
        l = ring(rng) if dim == 2 else ball(rng)
        n = l.shape[1]
        d = values(rng, l)
        b = d.copy()
        b[rng.randint(n)] *= gen.pick(rng, 0., -1.)
        o = rng.uniform(0, 1, n)
        m.raises('empty-interior', lambda: fn(b + o - o, np.zeros(n), l), 'wrongInput:rho_diff_vec', b=b)
        m.raises('empty-interior', lambda: fn(o, o + d, l), 'wrongInput:rho_diff_vec')
        for args in ((d[:-1], o, l), (d, o[:-1], l), (d, o, l[:, :-1]), (d, o, l[0]), (np.tile(d, (2, 1)), o, l),
                     (d, np.tile(o, (2, 1)), l), (d, o, np.vstack((l, l[:1]))), (d, o, l.T)):
            m.raises('size-rejected', lambda: fn(*args), 'wrongInput', kinds=(ValueError,), shapes=[np.shape(a) for a in args])
    m.sig(m.index)


CASES = [('diff2', differences(2), 150, 4000), ('diff3', differences(3), 100, 2500), ('fans', fans, 80, 1500),
         ('bound2', bound2, 150, 3000), ('bound3', bound3, 60, 1500), ('whole', whole, 60, 1200), ('rejected', rejected, 20, 100)]
