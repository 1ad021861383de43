"""C23  Triangulation refinement preserves structure and meets the edge bound."""
import numpy as np
from scipy.spatial import ConvexHull, Delaunay, cKDTree
from ellipy.gras.geom.tri.tri import map_face_2_edge, shrink_face_tri, sphere_tri
from .. import gen

RULE = ('random triangulations (closed hulls, planar Delaunay patches, single faces in both shapes, open and bent fans) '
        'refined with random bounds and step limits, with and without vertex adjustment, every step limit 0..K compared '
        'with its predecessor; distinct by content')
REQUIRED = ['prefix', 'edge-bound', 'midpoint', 'area', 'euler', 'boundary', 'edge-list', 'face-edge-map', 'steps', 'stats',
            'long-edges-split', 'same-as-plain', 'map', 'map-rejected', 'vertex-numbers']
PAIRS = ((0, 1), (1, 2), (0, 2))


def mesh(rng):
    k = rng.randint(6)
    if k == 0:
        v = rng.standard_normal((rng.randint(4, 10), 3))
        v /= np.linalg.norm(v, axis=1)[:, None]
        f = ConvexHull(v).simplices
    elif k == 1:
        p = rng.uniform(0, 1, (rng.randint(3, 10), 2))
        f = Delaunay(p).simplices
        v = np.c_[p, rng.uniform(-0.3, 0.3, len(p)) if rng.randint(2) else np.zeros(len(p))]
    elif k == 2:
        v = rng.standard_normal((3, 3))
        f = rng.permutation(3)
        if rng.randint(2):
            f = f.reshape(1, 3)
    elif k == 3:
        # strip of right triangles
        n = rng.randint(2, 6)
        v = np.array([[i, j, 0.] for i in range(n) for j in range(2)]) * np.exp(rng.uniform(-1, 1))
        f = np.array([[2 * i, 2 * i + 2, 2 * i + 1] for i in range(n - 1)] +
                     [[2 * i + 2, 2 * i + 3, 2 * i + 1] for i in range(n - 1)])
    elif k == 4:
        # two separate pieces of different sizes
        v = np.vstack((rng.standard_normal((3, 3)), 5. + 0.2 * rng.standard_normal((3, 3))))
        f = np.array([[0, 1, 2], [3, 4, 5]])
    else:
        # strongly anisotropic hull
        v = rng.standard_normal((rng.randint(5, 9), 3))
        v = v / np.linalg.norm(v, axis=1)[:, None] * np.array([3., 1., 0.4])
        f = ConvexHull(v).simplices
    f = np.array(f)
    if f.ndim == 2:
        f = np.array([x[rng.permutation(3)] for x in f])
        f = f[rng.permutation(len(f))]
    f = f.astype(gen.pick(rng, np.int32, np.int64, np.int64))
    return v, f, k


def longest(v, f):
    f = np.reshape(f, (-1, 3))
    return max(np.max(np.linalg.norm(v[f[:, a]] - v[f[:, b]], axis=1)) for a, b in PAIRS)


def area(v, f):
    f = np.reshape(f, (-1, 3))
    return 0.5 * np.sum(np.linalg.norm(np.cross(v[f[:, 1]] - v[f[:, 0]], v[f[:, 2]] - v[f[:, 0]]), axis=1))


def edges_of(f):
    """edge -> number of faces having it"""
    res = {}
    for x in np.reshape(f, (-1, 3)).tolist():
        for a, b in PAIRS:
            e = (min(x[a], x[b]), max(x[a], x[b]))
            res[e] = res.get(e, 0) + 1
    return res


def inconsistent(f, e, f2e, fd):
    f, f2e, fd = np.reshape(f, (-1, 3)), np.reshape(f2e, (-1, 3)), np.reshape(fd, (-1, 3))
    if not f.shape == f2e.shape == fd.shape:
        return [('shapes', f.shape, f2e.shape, fd.shape)]
    if fd.dtype != bool or f2e.dtype.kind not in 'iu' or np.any(f2e < 0) or np.any(f2e >= len(e)):
        return [('types', fd.dtype, f2e.dtype)]
    bad = []
    for i in range(len(f)):
        for c, (a, b) in enumerate(PAIRS):
            x, y = (int(f[i, a]), int(f[i, b])), tuple(int(z) for z in e[f2e[i, c]])
            if y != (x if fd[i, c] else x[::-1]):
                bad.append((i, c, x, y, bool(fd[i, c])))
    return bad[:5]


def boundary(f):
    return set(e for e, n in edges_of(f).items() if n % 2)


def length(v, es):
    return sum(float(np.linalg.norm(v[a] - v[b])) for a, b in es)


def adjust(rng, k):
    j = rng.randint(3)
    if k == 0 and j == 0:
        return lambda x: x / np.linalg.norm(x, axis=1)[:, None]
    if j == 1:
        w = rng.uniform(-0.02, 0.02, 3)
        return lambda x: x + w
    return None


def refine(m):
    rng = m.rng
    v, f, kind = mesh(rng)
    f0 = f.copy()
    top = longest(v, f)
    bound = top * rng.uniform(0.12, 1.1) if rng.randint(8) else 0.
    func = adjust(rng, kind)
    limit = int(gen.pick(rng, 1, 2, 3, 3, 4))
    kw = dict(v=v, f=f0, bound=bound, adjusted=func is not None)
    seen = []
    for k in range(limit + 1):
        r = shrink_face_tri(v.copy(), f.copy(), bound, k, func, True)
        seen.append(r)
        check_one(m, v, f0, r, func, dict(kw, steps=k))
        if k:
            step(m, seen[k - 1], r, bound, func, k, dict(kw, steps=k))
            if r[2]['n_steps'] < k:
                break
        if len(np.reshape(r[1], (-1, 3))) > 250:
            break
    r = seen[-1]
    k = len(seen) - 1
    p = shrink_face_tri(v.copy(), f.copy(), bound, k, func)
    m.check('same-as-plain', len(p) == 2 and np.array_equal(p[0], r[0]) and np.array_equal(p[1], r[1]), **kw)
    stats(m, v, f0, seen, bound, kw)
    m.sig(v, f0, bound, limit)
    m.sample(vertices=v, faces=f0, bound=bound, steps=limit, result_faces=len(np.reshape(r[1], (-1, 3))))


def large(m):
    """Hundreds of edges of very different lengths."""
    rng = m.rng
    v, f = sphere_tri(int(rng.randint(2, 4)))
    v = v * np.exp(rng.uniform(-1.5, 1.5, (len(v), 1)))
    p = rng.permutation(len(v))
    v, f = v[p], np.argsort(p)[f][rng.permutation(len(f))]
    e = np.array(sorted(edges_of(f)))
    el = np.sort(np.linalg.norm(v[e[:, 0]] - v[e[:, 1]], axis=1))
    # from a few long edges only to all of them
    bound = float(gen.pick(rng, 0., el[-2], el[-rng.randint(3, 12)], el[rng.randint(len(el))], el[-1]))
    seen = [shrink_face_tri(v.copy(), f.copy(), bound, k, None, True) for k in range(2)]
    kw = dict(edges=len(e), bound=bound, seed_case=m.index)
    for k, r in enumerate(seen):
        check_one(m, v, f, r, None, dict(kw, steps=k))
    step(m, seen[0], seen[1], bound, None, 1, kw)
    stats(m, v, f, seen, bound, kw)
    m.sig(v, f, bound)


def check_one(m, v, f0, r, func, kw):
    V, F, st, E, f2e, fd = r
    used = edges_of(F)
    m.need('prefix', V.ndim == 2 and V.shape[1] == 3 and np.array_equal(V[:len(v)], v), got=V[:len(v)], **kw)
    fl = np.reshape(F, (-1, 3))
    m.need('vertex-numbers', F.dtype.kind in 'iu' and np.all(fl >= 0) and np.all(fl < len(V)) and
           np.all(fl[:, 0] != fl[:, 1]) and np.all(fl[:, 1] != fl[:, 2]) and np.all(fl[:, 0] != fl[:, 2]), faces=F, **kw)
    es = [(min(a, b), max(a, b)) for a, b in np.asarray(E).tolist()]
    m.need('edge-list', len(es) == len(set(es)) and set(es) == set(used), extra=set(es) ^ set(used), **kw)
    bad = inconsistent(F, E, f2e, fd)
    m.check('face-edge-map', not bad, bad=bad, **kw)
    n0 = len(v) - len(edges_of(f0)) + len(np.reshape(f0, (-1, 3)))
    m.check('euler', len(V) - len(es) + len(fl) == n0, got=len(V) - len(es) + len(fl), expected=n0, **kw)
    m.check('boundary-edges', max(used.values()) <= 2, **kw)
    if func is None:
        a0 = area(v, f0)
        m.check('area', abs(area(V, F) - a0) <= 1e-9 * max(1., a0), got=area(V, F), expected=a0, **kw)
        b0, b1 = boundary(f0), boundary(F)
        m.check('boundary', abs(length(V, b1) - length(v, b0)) <= 1e-9 * max(1., length(v, b0)) and on_boundary(v, b0, V, b1),
                **kw)
    m.check('steps', st['n_steps'] <= kw['steps'] if 'steps' in kw else True, got=st['n_steps'], **kw)


def on_boundary(v, b0, V, b1):
    """Every boundary edge of the result lies within a boundary edge of the original."""
    if not b0:
        return not b1
    p = np.array([v[a] for a, b in b0])
    q = np.array([v[b] for a, b in b0])
    d = q - p
    dd = np.sum(d * d, 1)
    for a, b in b1:
        ok = np.ones(len(p), bool)
        for x in (V[a], V[b]):
            t = np.clip(np.sum((x - p) * d, 1) / dd, 0, 1)
            ok &= np.linalg.norm(p + t[:, None] * d - x, axis=1) <= 1e-9 * (1 + np.abs(x).max())
        if not ok.any():
            return False
    return True


def step(m, prev, cur, bound, func, k, kw):
    """One further step: long edges of the previous state are split, new vertices are midpoints of its edges."""
    V0, F0, _, E0, _, _ = prev
    V1, F1, st, E1, _, _ = cur
    e0 = np.asarray(E0)
    el = np.linalg.norm(V0[e0[:, 0]] - V0[e0[:, 1]], axis=1)
    m.check('prefix', np.array_equal(V1[:len(V0)], V0), **kw)
    over = el > bound * (1 + 1e-12)
    if not np.any(el > bound):
        m.check('steps', st['n_steps'] == prev[2]['n_steps'] and len(V1) == len(V0) and np.array_equal(F1, F0), **kw)
        return
    m.check('steps', st['n_steps'] == k, got=st['n_steps'], **kw)
    mid = (V0[e0[:, 0]] + V0[e0[:, 1]]) * 0.5
    if func is not None:
        mid = func(mid)
    new = V1[len(V0):]
    ok, taken = True, set()
    for x in new:
        hit = np.nonzero(np.linalg.norm(mid - x, axis=1) <= 1e-12 * (1 + np.abs(x).max()))[0]
        ok &= len(hit) > 0
        taken.update(hit.tolist())
    m.check('midpoint', ok and len(new) <= len(taken), new=new, **kw)
    e1 = set((min(a, b), max(a, b)) for a, b in np.asarray(E1).tolist())
    left = [tuple(x) for x, o in zip(e0.tolist(), over) if o and (min(x), max(x)) in e1]
    m.check('long-edges-split', not left, left=left[:5], **kw)


def stats(m, v, f0, seen, bound, kw):
    V, F, st = seen[-1][:3]
    n = st['n_steps']
    got = [np.atleast_1d(st[x]).tolist() for x in ('n_vert_vec', 'n_edge_vec', 'n_face_vec')]
    exp = [[len(r[0]) for r in seen[:n + 1]], [len(r[3]) for r in seen[:n + 1]],
           [len(np.reshape(r[1], (-1, 3))) for r in seen[:n + 1]]]
    m.check('stats', got == exp, got=got, expected=exp, **kw)
    got = np.atleast_1d(st['n_edges_to_shrink_vec']).reshape(-1).tolist()
    exp = [len(seen[i + 1][0]) - len(seen[i][0]) for i in range(n)]
    m.check('stats', got == exp, got=got, expected=exp, **kw)
    got = np.asarray(st['max_edge_length_vec'], dtype=float).reshape(-1)
    exp = np.array([longest(r[0], r[1]) for r in seen[:n]])
    m.close('stats', got, exp, 1e-12, **kw)


def unlimited(m):
    rng = m.rng
    v, f, kind = mesh(rng)
    bound = longest(v, f) * rng.uniform(0.2, 1.05)
    func = adjust(rng, kind)
    if func is not None and kind != 0:
        func = None
    if rng.randint(2):
        V, F = shrink_face_tri(v.copy(), f.copy(), bound) if func is None else \
            shrink_face_tri(v.copy(), f.copy(), bound, f_vert_adjust_func=func)
    else:
        r = shrink_face_tri(v.copy(), f.copy(), bound, np.inf, func, True)
        V, F = r[:2]
        check_one(m, v, f, r, func, dict(steps=np.inf, v=v, f=f, bound=bound))
    m.check('prefix', np.array_equal(V[:len(v)], v), v=v, f=f)
    m.check('edge-bound', longest(V, F) <= bound * (1 + 1e-12), got=longest(V, F), bound=bound, v=v, f=f)
    if func is None:
        m.check('area', abs(area(V, F) - area(v, f)) <= 1e-9 * max(1., area(v, f)), v=v, f=f, bound=bound)
    m.sig(v, f, bound)


def mapping(m):
    rng = m.rng
    v, f, _ = mesh(rng)
    if rng.randint(3) == 0:
        f = f * rng.randint(1, 5) + rng.randint(0, 7)
    e, f2e, fd = map_face_2_edge(f.copy())
    used = edges_of(f)
    es = [tuple(x) for x in np.asarray(e).tolist()]
    m.check('map', len(es) == len(set(es)) and set((min(x), max(x)) for x in es) == set(used) and len(es) == len(used), f=f, e=e)
    bad = inconsistent(f, np.asarray(e), f2e, fd)
    m.check('map', not bad, bad=bad, f=f, f2e=f2e, fd=fd)
    m.sig(f)


def mapping_large(m):
    """Tens of thousands of edges."""
    rng = m.rng
    k = rng.randint(11000, 16000)
    if rng.randint(2):                      # all faces apart from each other
        f = rng.permutation(3 * k).reshape(-1, 3)
    else:                                   # a strip
        i = np.arange(3 * k // 2)
        f = np.stack([i, i + 1, i + 2], axis=1)[rng.permutation(i.size)]
    e, f2e, fd = map_face_2_edge(f.copy())
    used = edges_of(f)
    es = [tuple(x) for x in np.asarray(e).tolist()]
    m.check('map', len(es) == len(set(es)) and set((min(x), max(x)) for x in es) == set(used) and len(es) == len(used), n=k)
    bad = inconsistent(f, np.asarray(e), f2e, fd)
    m.check('map', not bad, bad=repr(bad)[:300], n=k)
    m.sig(f[:50])


def just_over(m):
    """Edges longer than the bound by little are split, edges equal to it or shorter by little are not."""
    rng = m.rng
    b = float(2. ** rng.randint(-3, 4))
    d = float(10. ** rng.uniform(-13, -6)) * (1. if rng.randint(3) else -1.) if rng.randint(4) else 0.
    v = np.array([[0., 0., 0.], [b * (1. + d), 0., 0.], [0., b * rng.uniform(0.2, 0.6), 0.]])
    x = np.roll(np.arange(3), rng.randint(3))
    v[2, 0] = b * rng.uniform(0.3, 0.6)
    f = np.array([[0, 1, 2]])[:, x]
    V, F = shrink_face_tri(v.copy(), f.copy(), b)
    m.check('edge-bound', (len(V) > len(v)) == bool(v[1, 0] > b) and longest(V, F) <= b * (1 + 1e-14), v=v, f=f, bound=b, got=V)
    m.sig(v, f)


def rejected(m):
    rng = m.rng
    for bad in (rng.randint(0, 5, (3, 2)), rng.randint(0, 5, (3, 4)), rng.randint(0, 5, (2,)), rng.randint(0, 5, (4,))):
        m.raises('map-rejected', lambda: map_face_2_edge(bad), 'wrongInput:f_mat', bad=bad)
        m.raises('map-rejected', lambda: shrink_face_tri(rng.standard_normal((5, 3)), bad, 0.1), 'wrongInput:f_mat', bad=bad)
    m.sig(m.index)


def scaled(m):
    """In any unit of length the same faces and, by powers of two, exactly the same vertices."""
    rng = m.rng
    v, f, _ = mesh(rng)
    f = np.reshape(f, (-1, 3))
    s = float(2. ** (rng.randint(4, 60) * rng.choice([-1, 1])))
    bound = longest(v, f) * rng.uniform(0.2, 1.05)
    k = int(rng.randint(1, 4))
    a = shrink_face_tri(v.copy(), f.copy(), bound, k, None, True)
    b = shrink_face_tri(s * v, f.copy(), s * bound, k, None, True)
    kw = dict(v=v, f=f, bound=bound, steps=k, factor=s)
    m.check('scaled', np.array_equal(a[1], b[1]) and np.array_equal(s * a[0], b[0]), got=b[0] / s, expected=a[0], **kw)
    m.check('scaled', all(np.array_equal(np.asarray(a[i]), np.asarray(b[i])) for i in (3, 4, 5)), **kw)
    m.close('scaled', np.asarray(b[2]['max_edge_length_vec'], dtype=float) / s, a[2]['max_edge_length_vec'], 1e-14, **kw)
    m.sig(v, f, bound, s)


def huge(m):
    """Tens of thousands of faces; all at once instead of face by face."""
    rng = m.rng
    p, q = int(rng.randint(60, 180)), int(rng.randint(60, 120))
    i, j = np.meshgrid(np.arange(p), np.arange(q), indexing='ij')
    v = np.stack([i * rng.uniform(0.5, 2.) / 3., j / 7., np.zeros_like(i)], axis=2).reshape(-1, 3) + rng.uniform(-0.02, 0.02, (p * q, 3))
    at = lambda a, b: (a * q + b).reshape(-1)
    a, b = i[:-1, :-1], j[:-1, :-1]
    f = np.concatenate([np.stack([at(a, b), at(a + 1, b), at(a, b + 1)], 1), np.stack([at(a + 1, b), at(a + 1, b + 1), at(a, b + 1)], 1)])
    f = f[rng.permutation(len(f))]
    e0 = np.unique(np.sort(np.concatenate([f[:, [x, y]] for x, y in PAIRS]), axis=1), axis=0)
    l0 = np.linalg.norm(v[e0[:, 0]] - v[e0[:, 1]], axis=1)
    bound = float(gen.pick(rng, 0., np.median(l0), np.sort(l0)[-3]))
    V, F, st, E, f2e, fd = shrink_face_tri(v.copy(), f.copy(), bound, 1, None, True)
    kw = dict(size=(p, q), bound=bound, faces=len(f), case=m.index)
    m.need('prefix', np.array_equal(V[:len(v)], v), **kw)
    m.check('steps', st['n_steps'] == 1, got=st['n_steps'], **kw)
    F, E, f2e, fd = np.asarray(F), np.asarray(E), np.asarray(f2e), np.asarray(fd)
    m.need('vertex-numbers', F.min() >= 0 and F.max() < len(V), **kw)
    # every new vertex is the midpoint of an edge, every long edge has one
    dist, hit = cKDTree(0.5 * (v[e0[:, 0]] + v[e0[:, 1]])).query(V[len(v):])
    hit = hit.tolist()
    m.check('midpoint', np.max(dist) <= 1e-11 and len(set(hit)) == len(hit), away=np.max(dist), **kw)
    m.check('long-edges-split', set(np.nonzero(l0 > bound)[0].tolist()) <= set(hit), **kw)
    e1 = np.unique(np.sort(np.concatenate([F[:, [x, y]] for x, y in PAIRS]), axis=1), axis=0)
    m.check('edge-list', np.array_equal(e1, np.unique(np.sort(E, axis=1), axis=0)) and len(e1) == len(E), **kw)
    for c, (x, y) in enumerate(PAIRS):
        d = fd[:, c][:, None]
        m.check('face-edge-map', np.array_equal(np.where(d, E[f2e[:, c]], E[f2e[:, c]][:, ::-1]), F[:, [x, y]]), corner=c, **kw)
    m.check('euler', len(V) - len(E) + len(F) == len(v) - len(e0) + len(f), **kw)
    m.check('area', abs(area(V, F) - area(v, f)) <= 1e-9 * area(v, f), got=area(V, F), expected=area(v, f), **kw)
    m.sig(v[:50], bound)


def whole(m):
    """Vertices given as whole numbers of any type."""
    rng = m.rng
    _, f, _ = mesh(rng)
    f = np.reshape(f, (-1, 3))
    v = gen.whole(rng, int(f.max()) + 1, 3)
    w = v.astype(float)
    top = longest(w, f)
    if not top > 0:
        m.trivial = True
        return
    bound = top * rng.uniform(0.3, 1.1)
    k = int(rng.randint(1, 3))
    r = shrink_face_tri(v.copy(), f.copy(), bound, k, None, True)
    check_one(m, w, f, r, None, dict(v=v, f=f, bound=bound, steps=k))
    exp = shrink_face_tri(w.copy(), f.copy(), bound, k, None, True)
    m.check('whole-numbers', np.array_equal(r[0], exp[0]) and np.array_equal(r[1], exp[1]), got=r[0], expected=exp[0], v=v, f=f,
            bound=bound)
    m.sig(v, f, bound)


CASES = [('refine', refine, 60, 1500), ('unlimited', unlimited, 60, 1500), ('large', large, 30, 300), ('mapping', mapping, 80, 2000),
         ('mapping_large', mapping_large, 2, 24), ('scaled', scaled, 40, 1000), ('huge', huge, 3, 40),
         ('just_over', just_over, 40, 800), ('whole', whole, 40, 800), ('rejected', rejected, 2, 10)]
