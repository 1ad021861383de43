"""C25  Triangulation equality and face lookup ignore numbering."""
import numpy as np
from scipy.spatial import ConvexHull, Delaunay
from ellipy.gras.gen.gen import sort_rows_tol
from ellipy.gras.geom.tri.tri import is_face, is_tri_equal, shrink_face_tri, sphere_tri
from .. import gen

RULE = ('random surface triangulations (hulls, planar patches, pairs of pieces, refined ones) against renumbered, reordered '
        'and perturbed copies and against copies with one vertex moved, one face changed, an edge flipped or a part removed; '
        'face queries over existing faces in any order, near misses, unknown and repeated vertices; row sorting of matrices '
        'with ties within the tolerance; distinct by content')
REQUIRED = ['equal', 'different', 'report', 'symmetric', 'is-face', 'sort-rows', 'sort-order', 'sort-inverse', 'sort-rejected']
TOLS = (1e-3, 1e-6, 1e-9, 1e-12)


def mesh(rng):
    k = rng.randint(6)
    if k == 0:
        v = rng.standard_normal((rng.randint(4, 14), 3))
        v /= np.linalg.norm(v, axis=1)[:, None]
        f = ConvexHull(v).simplices
    elif k == 1:
        p = rng.standard_normal((rng.randint(3, 14), 2))
        f = Delaunay(p).simplices
        v = np.c_[p, np.zeros(len(p))]
    elif k == 2:
        # grid: many equal coordinates
        a, b = rng.randint(2, 5), rng.randint(2, 4)
        v = np.array([[i, j, (i * j) % 2] for i in range(a) for j in range(b)], dtype=float)
        f = []
        for i in range(a - 1):
            for j in range(b - 1):
                q = [i * b + j, (i + 1) * b + j, (i + 1) * b + j + 1, i * b + j + 1]
                f += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]] if rng.randint(2) else [[q[0], q[1], q[3]], [q[1], q[2], q[3]]]
        f = np.array(f)
    elif k == 3:
        v = rng.standard_normal((3, 3))
        f = np.array([[0, 1, 2]])
    elif k == 4:
        v, f = sphere_tri(int(rng.randint(0, 2)))
    else:
        v = rng.standard_normal((4, 3))
        v, f = shrink_face_tri(v, ConvexHull(v).simplices, 0., int(rng.randint(1, 3)))
    return np.array(v), np.array(f, dtype=gen.pick(rng, np.int64, np.int32)), k


def shuffled(rng, v, f):
    """The same triangulation under another numbering."""
    p = rng.permutation(len(v))
    inv = np.argsort(p)
    g = inv[f][rng.permutation(len(f))]
    g = np.array([x[rng.permutation(3)] for x in g])
    return v[p].copy(), g.astype(f.dtype)


def gap(v):
    """Smallest positive coordinate gap: tolerances stay far below it."""
    g = [np.diff(np.unique(np.round(v[:, i], 13))) for i in range(v.shape[1])]
    g = np.concatenate(g)
    return g.min() if g.size else 1.


def judge(m, expected, v1, f1, v2, f2, tol, how):
    mech = 'equal' if expected else 'different'
    if rng_swap(m):
        v1, f1, v2, f2 = v2, f2, v1, f1
    is_eq, rep = is_tri_equal(v1, f1, v2, f2, tol)
    kw = dict(how=how, v1=v1, f1=f1, v2=v2, f2=f2, tol=tol, report=rep)
    m.check(mech, bool(is_eq) == expected, got=is_eq, **kw)
    m.check('report', isinstance(rep, str) and (rep == '') == bool(is_eq), **kw)
    back, rep2 = is_tri_equal(v2, f2, v1, f1, tol)
    m.check('symmetric', bool(back) == bool(is_eq) and (rep2 == '') == (rep == ''), **kw)


def rng_swap(m):
    return m.rng.randint(2)


def equality(m):
    rng = m.rng
    v, f, kind = mesh(rng)
    g = gap(v)
    tols = [t for t in TOLS if t < 0.02 * g] or [1e-13]
    tol = float(tols[rng.randint(len(tols))])
    w, h = shuffled(rng, v, f)
    noisy = w + tol * rng.uniform(-0.24, 0.24, w.shape) if tol > 1e-12 and rng.randint(3) else w
    if tol <= 1e-12 and kind in (0, 1, 3) and rng.randint(2):
        tol = 0.
    judge(m, True, v, f, noisy, h, tol, 'renumbered')
    how = rng.randint(8)
    w2, h2 = noisy.copy(), h.copy()
    name = None
    if how == 0:
        # one vertex moved beyond the tolerance (in a coordinate nobody shares, the order of the rest stays)
        i, c = rng.randint(len(w2)), rng.randint(3)
        w2[i, c] += max(tol, 1e-14) * gen.pick(rng, 3., 10.) if tol else 1e-3
        name = 'vertex moved'
        if tol and not clear(v, w2, tol):
            name = None
    elif how == 1 and len(h2) > 1:
        h2 = np.delete(h2, rng.randint(len(h2)), axis=0)
        name = 'face missing'
    elif how == 2:
        w2 = np.vstack((w2, w2[:1] + 5.))
        name = 'vertex added'
    elif how == 3 and len(h2) > 1:
        # one face replaced by another triple of vertices, manifold edges kept
        old = set(map(frozenset, h2.tolist()))
        for _ in range(40):
            x = h2.copy()
            x[rng.randint(len(x)), rng.randint(3)] = rng.randint(len(w2))
            if all(len(set(r)) == 3 for r in x.tolist()) and manifold(x) and \
                    len(set(map(frozenset, x.tolist()))) == len(x) and set(map(frozenset, x.tolist())) != old:
                h2, name = x, 'face changed'
                break
    elif how == 4:
        x = flip(rng, h2)
        if x is not None:
            h2, name = x, 'edge flipped'
    elif how == 5 and len(w2) > 3:
        # two vertices swapped without renumbering the faces
        i, j = rng.choice(len(w2), 2, replace=False)
        w2[[i, j]] = w2[[j, i]]
        a = {i: j, j: i}
        y = set(frozenset(a.get(z, z) for z in r) for r in h2.tolist())
        if y != set(map(frozenset, h2.tolist())):
            name = 'vertices swapped'
    elif how == 6:
        i, c = rng.randint(len(w2)), rng.randint(3)
        w2[i, c] += gen.pick(rng, 0.5, 2., -1.7) * max(g, 1e-3)
        name = 'vertex moved far'
        if not clear(v, w2, max(tol, 1e-14)):
            name = None
    elif how == 7 and len(h2) > 1:
        # one face replaced by another one listed a second time in another order
        i, j = rng.choice(len(h2), 2, replace=False)
        h2[i] = h2[j][gen.pick(rng, [1, 2, 0], [2, 0, 1], [1, 0, 2])]
        if manifold(h2):
            name = 'face replaced by a repeated one'
    if name:
        judge(m, False, v, f, w2, h2, tol, name)
    m.sig(v, f, w2, h2, tol)
    m.sample(vertices=v, faces=f, other_faces=h2, tol=tol, how=name)


def clear(v, w, tol):
    """No matching of the vertices is within twice the tolerance: some vertex of w is far from all of v or vice versa."""
    d = np.max(np.abs(v[:, None] - w[None]), axis=2)
    return bool(np.any(d.min(0) > 2 * tol) or np.any(d.min(1) > 2 * tol))


def manifold(f):
    n = {}
    for a, b, c in f.tolist():
        for e in ((a, b), (b, c), (a, c)):
            e = (min(e), max(e))
            n[e] = n.get(e, 0) + 1
    return max(n.values()) <= 2


def flip(rng, f):
    """Flip one interior edge; None if impossible."""
    own = {}
    for i, r in enumerate(f.tolist()):
        for a, b in ((0, 1), (1, 2), (0, 2)):
            own.setdefault(frozenset((r[a], r[b])), []).append(i)
    es = [(e, x) for e, x in own.items() if len(x) == 2]
    if not es:
        return None
    for k in rng.permutation(len(es)):
        e, (i, j) = es[k]
        a, b = sorted(e)
        c, d = [(set(f[z].tolist()) - e).pop() for z in (i, j)]
        if c != d and frozenset((c, d)) not in own:
            g = f.copy()
            g[i], g[j] = [a, c, d], [b, c, d]
            return g
    return None


def faces(m):
    rng = m.rng
    v, f, _ = mesh(rng)
    known = set(map(frozenset, f.tolist()))
    nv = len(v)
    q = []
    for _ in range(rng.randint(1, 30)):
        k = rng.randint(4)
        r = f[rng.randint(len(f))][rng.permutation(3)].tolist()
        if k == 1:
            r[rng.randint(3)] = int(rng.randint(nv))
        elif k == 2:
            r = rng.randint(0, nv + 3, 3).tolist()
        elif k == 3 and rng.randint(2):
            r[0] = r[1]
        q.append(r)
    q = np.array(q).astype(gen.pick(rng, np.int64, np.int32, f.dtype.type))
    exp = np.array([len(set(r)) == 3 and frozenset(r) in known for r in q.tolist()])
    g = f.reshape(3) if len(f) == 1 and rng.randint(2) else f
    got = is_face(g, q)
    m.check('is-face', np.shape(got) == exp.shape and got.dtype == bool and np.array_equal(got, exp), f=f, q=q, got=got, expected=exp)
    m.check('is-face', np.all(is_face(f, f[rng.permutation(len(f))])), f=f)
    m.sig(f, q)


def clusters(col, tol):
    """Number of the chain of values (gaps within tol) every value belongs to."""
    o = np.argsort(col, kind='stable')
    c = np.zeros(len(col), dtype=int)
    c[o[1:]] = np.cumsum(np.diff(col[o]) > tol)
    return c


def sorting(m):
    rng = m.rng
    n, c = gen.many(rng, 25, 300), gen.dim(rng, 6)
    k = rng.randint(4)
    tol = float(gen.pick(rng, 0., 1e-9, 1e-6, 1e-3, 0.05))
    x = rng.randint(0, 4, (n, c)).astype(float) if k else rng.uniform(-3, 3, (n, c))
    if k in (1, 2):
        x = x * gen.pick(rng, 1., -1., 10.) + tol * rng.uniform(-0.4, 0.4, x.shape)
    if k == 2 and tol:                      # apart by one and a half tolerance or by two thirds of it
        x = np.round(x / tol + rng.randint(0, 3, x.shape)) * tol * gen.pick(rng, 1.5, 1.5, 0.7)
    if k == 1 and rng.randint(3) == 0:      # exactly the tolerance apart
        tol = 2. ** -rng.randint(1, 12)
        x = rng.randint(0, 6, (n, c)) * tol * gen.pick(rng, 1., 2.)
    if k == 3:
        x = x.astype(gen.pick(rng, np.int64, np.int32, np.uint8, np.int8, np.uint32))
        if rng.randint(2):
            x = gen.whole(rng, n, c)
            if rng.randint(2):
                tol = float(rng.randint(0, 40))
    y, ind, rev = sort_rows_tol(x.copy(), tol)
    kw = dict(x=x, tol=tol, got=y, ind=ind, rev=rev)
    m.need('sort-inverse', np.shape(ind) == (n,) and sorted(ind.tolist()) == list(range(n)) and
           np.array_equal(ind[rev], np.arange(n)) and np.array_equal(rev[ind], np.arange(n)), **kw)
    m.check('sort-rows', np.array_equal(y, x[ind]) and np.array_equal(y[rev], x) and y.dtype == x.dtype, **kw)
    if k == 0 and tol >= 1e-3:
        g = np.concatenate([np.abs(np.diff(np.sort(x[:, i])) - tol) for i in range(c)] + [[1.]])
        if g.min() < 1e-6:
            m.sig(x, tol)
            return
    cl = np.stack([clusters(y[:, i], tol) for i in range(c)], axis=1)
    rows = [tuple(r) for r in cl.tolist()]
    m.check('sort-order', all(a <= b for a, b in zip(rows, rows[1:])), clusters=cl, **kw)
    m.sig(x, tol)


def whole(m):
    """Vertices given as whole numbers of any type."""
    rng = m.rng
    v, f, _ = mesh(rng)
    n = len(v)
    v = gen.whole(rng, n, 3)
    # far apart in the first coordinate, so that the order of the vertices is never in doubt
    hi = min(np.iinfo(v.dtype).max, 10 ** 9)
    if n * 6 > hi:
        m.trivial = True
        return
    step = hi // n
    v[:, 0] = rng.permutation(n) * step
    w, h = shuffled(rng, v, f)
    tol = float(rng.randint(1, max(2, step // 3)))
    judge(m, True, v, f, w, h, tol, 'whole, renumbered')
    x = w.astype(float)
    x[:, 1:] += rng.randint(-1, 2, (n, 2)) * rng.randint(0, int(tol) + 1)
    x[:, 1:] = np.clip(x[:, 1:], np.iinfo(v.dtype).min, np.iinfo(v.dtype).max)
    judge(m, True, v, f, x.astype(v.dtype), h, tol, 'whole, within the tolerance')
    i, c = rng.randint(n), rng.randint(1, 3)
    y = x.copy()
    y[i, c] = w[i, c] + (1. if w[i, c] <= 0 else -1.) * (tol + rng.randint(1, 4))
    if np.iinfo(v.dtype).min <= y[i, c] <= np.iinfo(v.dtype).max:
        judge(m, False, v, f, y.astype(v.dtype), h, tol, 'whole, beyond the tolerance')
    m.sig(v, f, tol)


def rejected(m):
    m.raises('sort-rejected', lambda: sort_rows_tol(np.eye(3), -1e-9), 'wrongInput:tol')
    for bad in (np.arange(3.), np.zeros((2, 2, 2)), np.array([['a', 'b']]), np.array(1.)):
        m.raises('sort-rejected', lambda: sort_rows_tol(bad, 1e-3), 'wrongInput:inp_mat', bad=bad)
    m.sig(m.index)


CASES = [('equality', equality, 300, 8000), ('faces', faces, 300, 8000), ('sorting', sorting, 500, 12000),
         ('whole', whole, 80, 2000), ('rejected', rejected, 1, 3)]
