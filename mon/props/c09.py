"""C09  Projection is the exact shadow, in place or as a copy as asked."""
import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from .. import gen
from .c02 import settings_of, params

RULE = ('arrays of 1..8 ellipsoids of dimension 1..6 projected on 1..n orthogonal directions of lengths 1e-6..1e6 '
        '(random, permuted coordinate, mixed) in both forms; supports of shadow and original are compared; then every '
        'kind of unusable basis, after which all objects must be as before; distinct by content')
REQUIRED = ['shadow', 'center', 'settings', 'same-objects', 'copy', 'rejected', 'unchanged']


def make(rng, n):
    if rng.randint(10) == 0:                # valid only within its own tolerance
        sh, tol, _ = gen.loose(rng, n, -5, -2)
        return Ellipsoid(gen.center(rng, n), sh, **dict(gen.settings(rng), abs_tol=tol))
    return Ellipsoid(gen.center(rng, n), gen.spdw(rng, n) if rng.randint(3) else gen.psd(rng, n), **gen.settings(rng))


def basis(rng, n, k):
    b = np.eye(n)[:, rng.permutation(n)[:k]] if rng.randint(3) == 0 else gen.orth(rng, n)[:, :k]
    kind = rng.randint(6)
    if kind < 2:
        b = b * (np.exp(rng.uniform(np.log(0.1), np.log(100.), k)) * rng.choice([-1., 1.], k))
    elif kind == 2:                         # nearly, but not exactly, normalised
        b = b * (1. + 10. ** rng.uniform(-5, -1.3, k) * rng.choice([-1., 1.], k))
    elif kind == 3:                         # very long and very short ones, exactly orthogonal
        b = np.eye(n)[:, rng.permutation(n)[:k]] * (10. ** rng.uniform(-6, 6, k) * rng.choice([-1., 1.], k))
    elif kind == 4:
        b = b * (10. ** rng.uniform(-5, 2, k) * rng.choice([-1., 1.], k))
    return b


def h(q, sh, l):
    return float(q @ l + np.sqrt(max(0., float(l @ sh @ l))))


def shadow(m, before, after, b):
    q, sh = before
    p, ps = after
    k = b.shape[1]
    m.need('shadow', p.shape == (k,) and ps.shape == (k, k), got=(p.shape, ps.shape), k=k)
    u = b / np.sqrt(np.sum(b * b, axis=0))
    m.close('center', p, u.T @ q, 1e-9)
    for _ in range(5):
        w = gen.nzvec(m.rng, k, 0.5, 2.)
        # near zero extents the root turns rounding 1e-16 into 1e-8
        m.check('shadow', abs(h(p, ps, w) - h(q, sh, u @ w)) <= 1e-6 * (1. + np.linalg.norm(q) + np.sqrt(np.max(np.abs(sh)))),
                got=h(p, ps, w), expected=h(q, sh, u @ w), basis=b, center=q, shape=sh, dir=w)
    m.close('shadow', ps, u.T @ sh @ u, 1e-9 * max(1., np.max(np.abs(sh))))


def project(m):
    rng = m.rng
    n = gen.dim(rng, 7)
    k = rng.randint(1, n + 1)
    shp = gen.shape(rng)
    objs = [make(rng, n) for _ in range(int(np.prod(shp)))]
    b = basis(rng, n, k)
    before = [params(o) for o in objs]
    sets = [settings_of(Ellipsoid, o) for o in objs]
    # copying form
    res = Ellipsoid.get_projection(gen.as_arg(rng, objs, shp), b.copy())
    m.need('copy', np.shape(res) == shp, got=np.shape(res), expected=shp)
    res = list(np.array(res).flatten())
    for o, r, bf, st in zip(objs, res, before, sets):
        m.check('copy', r is not o and all(np.array_equal(x, y) for x, y in zip(params(o), bf)), before=bf, after=params(o))
        shadow(m, bf, params(r), b)
        m.check('settings', settings_of(Ellipsoid, r) == st == settings_of(Ellipsoid, o))
    # unusable bases: rejected, nothing changes
    bad = []
    if n > 1:
        t = gen.orth(rng, n)[:, :2] * rng.choice([-1., 1.], 2) * np.exp(rng.uniform(0, 2, 2))
        t[:, 1] += gen.pick(rng, 1., -1.) * max(gen.pick(rng, 1e-4, 1e-2, 0.5, 3.), 100. * max(s[0] for s in sets)) * t[:, 0]
        bad.append(('skew', t))
        bad.append(('repeated', np.stack([t[:, 0], t[:, 0]], axis=1)))
        bad.append(('opposite', np.stack([t[:, 0], -t[:, 0]], axis=1)))
    if n > 2:
        t = gen.orth(rng, n)[:, :3]
        i, j = rng.choice(3, 2, replace=False)
        t[:, i] += rng.choice([-1., 1.]) * 0.3 * t[:, j]
        bad.append(('skew-pair', t))
    bad.append(('too many', np.hstack([np.eye(n), np.ones((n, 1))])))
    bad.append(('dimension', gen.orth(rng, n + 1)[:, :k]))
    if n > 1:
        bad.append(('dimension', np.eye(n - 1)[:, :1]))
    bad.append(('text', np.array([['a']] * n)))
    for name, t in bad:
        m.raises('rejected', lambda: Ellipsoid.projection(gen.obj_array(objs, shp), t), what=name, basis=t)
        m.raises('rejected', lambda: Ellipsoid.get_projection(gen.obj_array(objs, shp), t), what=name, basis=t)
    mixed = objs + [make(rng, n + 1)]
    rng.shuffle(mixed)
    m.raises('rejected', lambda: Ellipsoid.projection(mixed, b), what='mixed')
    for o, bf in zip(objs, before):
        m.check('unchanged', all(np.array_equal(x, y) for x, y in zip(params(o), bf)), before=bf, after=params(o))
    # in-place form
    bc = b.copy()
    res = Ellipsoid.projection(gen.as_arg(rng, objs, shp), bc)
    m.need('same-objects', np.shape(res) == shp, got=np.shape(res), expected=shp)
    m.check('same-objects', all(r is o for r, o in zip(np.array(res).flatten(), objs)))
    for o, bf, st in zip(objs, before, sets):
        shadow(m, bf, params(o), b)
        m.check('settings', settings_of(Ellipsoid, o) == st)
    m.close('unchanged', bc, b, 0.)
    m.sig(before, b, shp)
    m.sample(first=before[0], basis=b, shape=shp)


def whole(m):
    """Directions given as whole numbers of any type."""
    rng = m.rng
    n = gen.dim(rng, 6)
    k = rng.randint(1, n + 1)
    g = gen.whole(rng, k)
    b = np.zeros((n, k), g.dtype)
    b[rng.permutation(n)[:k], np.arange(k)] = g
    if k > 1 and b.dtype.kind == 'i' and rng.randint(2):
        # two of them skew in their plane
        i, j = np.nonzero(b[:, 0])[0][0], np.nonzero(b[:, 1])[0][0]
        x, y = gen.whole(rng, 2).astype(b.dtype)
        if b.dtype.itemsize > 4:             # their products should be exact
            x, y = x % 2 ** 25, y % 2 ** 25
        x, y = (x or 1), (y or 1)
        b[:, :2] = 0
        b[i, 0], b[j, 0], b[i, 1], b[j, 1] = x, y, -max(y, -np.iinfo(b.dtype).max), x
        if not float(b[:, 0].astype(float) @ b[:, 1].astype(float)) == 0.:
            return
    objs = [make(rng, n) for _ in range(rng.randint(1, 3))]
    before = [params(o) for o in objs]
    for o, bf in zip(list(Ellipsoid.get_projection(objs, b.copy())), before):
        shadow(m, bf, params(o), b.astype(float))
    Ellipsoid.projection(objs, b)
    for o, bf in zip(objs, before):
        shadow(m, bf, params(o), b.astype(float))
    m.sig(b, before)


def large(m):
    """Ellipsoids of any size, judged relative to it."""
    rng = m.rng
    n = gen.dim(rng, 7)
    s = 10. ** rng.uniform(3, 14)
    q, sh = np.sqrt(s) * gen.vec(rng, n), s * gen.spd(rng, n)
    k = int(rng.randint(1, n + 1))
    u = gen.orth(rng, n)[:, :k]
    b = u * np.exp(rng.uniform(-2, 2, k))
    e = Ellipsoid(q, sh, **(gen.settings(rng) if rng.randint(2) else {}))
    b = gen.pick(rng, b, u, np.eye(n)[:, rng.permutation(n)[:k]])
    tol = float(Ellipsoid.get_abs_tol([e], None).flatten()[0])
    g = b.T @ b
    if np.max(np.abs(g - np.diag(np.diag(g)))) > 0.3 * tol:     # orthogonal up to rounding only, the tolerance is smaller
        b = np.eye(n)[:, rng.permutation(n)[:k]]
    u = b / np.linalg.norm(b, axis=0)
    r = Ellipsoid.get_projection([e], b).flat[0]
    q2, sh2 = r.parameters()
    z = float(np.max(np.abs(sh)))
    m.check('shadow', sh2.shape == (k, k) and np.max(np.abs(sh2 - u.T @ sh @ u)) <= 1e-11 * z, got=sh2, expected=u.T @ sh @ u, basis=b)
    m.check('center', np.max(np.abs(q2 - u.T @ q)) <= 1e-11 * (1. + np.max(np.abs(q))), got=q2, expected=u.T @ q, basis=b)
    r2 = Ellipsoid.projection([r], np.eye(k)[:, :1]).flat[0]
    m.check('shadow', r2 is r and abs(float(r2.parameters()[1][0, 0]) - float((u.T @ sh @ u)[0, 0])) <= 1e-11 * z, got=r2.parameters())
    m.sig(q, sh, b)


CASES = [('large_project', gen.large(project, 20, 70), 12, 300),
         ('crowd_project', gen.crowded(project, 300), 5, 100),
         ('project', project, 160, 4000), ('whole', whole, 60, 1500), ('large', large, 80, 2500)]
