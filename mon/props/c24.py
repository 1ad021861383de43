"""C24  Circle, sphere and tube discretisations are well-formed."""
import math
import numpy as np
from ellipy.gras.geom.geom import circle_part, sphere_part
from ellipy.gras.geom.tri.tri import sphere_tri, sphere_tri_ext, ell_tube_2_tri, ell_tube_discr_tri, icosahedron
from .. import gen

RULE = ('circle partitions of 1..400 points over random angle ranges, sphere triangulations of depth 0..3 (thorough 4), point '
        'counts 1..700 around every depth switch, tube grids of 3..12 by 1..12 points on random tubes; distinct by arguments')
REQUIRED = ['circle', 'circle-range', 'circle-apart', 'counts', 'unit', 'closed', 'oriented', 'nested', 'depth-rejected',
            'ext-depth', 'ext-2d', 'ext-nonzero', 'ext-rejected', 'spread-count', 'spread-unit', 'spread-no-opposite',
            'spread-rejected', 'spread-coverage', 'tube-cells', 'tube-orientation', 'tube-indices', 'tube-curves', 'icosahedron']
EPS = np.finfo(float).eps


def circle(m):
    rng = m.rng
    n = int(gen.pick(rng, 1, 2, 3, rng.randint(4, 60), rng.randint(60, 400)))
    x = circle_part(n)
    exp = np.array([[math.cos(2 * math.pi * i / n), math.sin(2 * math.pi * i / n)] for i in range(n)])
    m.close('circle', x, exp, 1e-12, n=n)
    lo = rng.uniform(-7, 7)
    hi = lo + rng.uniform(-7, 7)
    r = gen.pick(rng, np.array([lo, hi]), [lo, hi], (lo, hi))
    exp = np.array([[math.cos(lo + (hi - lo) * i / n), math.sin(lo + (hi - lo) * i / n)] for i in range(n)])
    y = circle_part(n, angle_range_vec=r)
    m.close('circle-range', y, exp, 1e-12, n=n, range=r)
    a = circle_part(n, True, r)
    m.close('circle-apart', a[0], exp[:, :1], 1e-12, n=n)
    m.close('circle-apart', a[1], exp[:, 1:], 1e-12, n=n)
    m.check('circle-apart', len(a) == 2, n=n)
    m.sig(n, lo, hi)
    m.sample(n=n, range=[lo, hi])


def surface(m, v, f, depth):
    n = 4 ** depth
    m.need('counts', v.shape == (10 * n + 2, 3) and f.shape == (20 * n, 3) and f.dtype.kind in 'iu', depth=depth,
           v=v.shape, f=f.shape)
    m.check('unit', np.max(np.abs(np.linalg.norm(v, axis=1) - 1)) <= 1e-12, depth=depth)
    d = {}
    for a, b, c in f.tolist():
        for e in ((a, b), (b, c), (c, a)):
            d[e] = d.get(e, 0) + 1
    m.check('closed', all(d.get((b, a), 0) + k == 2 for (a, b), k in d.items()) and
            len(np.unique(f)) == len(v) and len(set(map(frozenset, f.tolist()))) == len(f), depth=depth)
    m.check('oriented', all(k == 1 and d.get((b, a)) == 1 for (a, b), k in d.items()), depth=depth)
    vol = np.sum(v[f[:, 0]] * np.cross(v[f[:, 1]], v[f[:, 2]]), 1)
    m.check('oriented', np.all(vol > 0) or np.all(vol < 0), depth=depth)
    # the faces tile the sphere: solid angles add up to 4 pi
    a, b, c = v[f[:, 0]], v[f[:, 1]], v[f[:, 2]]
    om = 2 * np.arctan2(np.abs(vol), 1 + np.sum(a * b, 1) + np.sum(b * c, 1) + np.sum(c * a, 1))
    m.close('closed', np.sum(om), 4 * np.pi, 1e-9, depth=depth)


def sphere(m):
    depth = m.index % (4 if m.tier == 'quick' else 5)
    dep = gen.pick(m.rng, depth, float(depth), np.int64(depth))
    v, f = sphere_tri(dep)
    surface(m, v, f, depth)
    w, _ = sphere_tri(depth + 1) if depth < 4 else (None, None)
    if w is not None:
        m.check('nested', np.array_equal(w[:len(v)], v), depth=depth)
    if depth == 0:
        v0, f0 = icosahedron()
        surface(m, v0, f0, 0)
        e = np.linalg.norm(v0[f0] - v0[f0[:, [1, 2, 0]]], axis=2)
        m.check('icosahedron', np.ptp(e) <= 1e-12 and np.array_equal(v0, v) and np.array_equal(f0, f), lengths=e)
    m.sig(depth, type(dep).__name__)
    m.sample(depth=depth)


def sphere_rejected(m):
    for bad in (-1, 1.5, 1.25, 2.9, 0.1, 1 + 1e-9, float(m.rng.randint(0, 4) + m.rng.uniform(0.01, 0.99)), np.nan, -0.5, np.array([1, 2]), [1], 'a'):
        m.raises('depth-rejected', lambda: sphere_tri(bad), 'wrong_input', bad=bad)
    for bad in (0, -1, 2.5, 12.2, 41.9, float(m.rng.randint(1, 99) + m.rng.uniform(0.01, 0.99)), np.nan, np.array([3, 4]), [5], 'a'):
        for dim in (2, 3):
            m.raises('ext-rejected', lambda: sphere_tri_ext(dim, bad), 'wrong_input', bad=bad)
    for bad in (0, -1, -5):
        m.raises('spread-rejected', lambda: sphere_part(bad), 'n_points', bad=bad)
    m.sig(m.index)


COUNTS = [1, 2, 11, 12, 13, 20, 41, 42, 43, 100, 161, 162, 163, 300, 641, 642]


def ext(m):
    rng = m.rng
    n = COUNTS[m.index % len(COUNTS)] if rng.randint(3) else int(rng.randint(1, 643))
    if m.tier == 'thorough' and rng.randint(20) == 0:
        n = int(rng.choice([643, 1000, 2562]))
    depth = 1
    while 10 * 4 ** depth + 2 < n:
        depth += 1
    arg = gen.pick(rng, n, float(n), np.int32(n))
    r = sphere_tri_ext(3, arg, *((True,) if rng.randint(2) else ()))
    if m.check('ext-depth', isinstance(r, tuple) and len(r) == 2 and r[0].shape == (10 * 4 ** depth + 2, 3), n=n, depth=depth):
        v, f = sphere_tri(depth)
        m.check('ext-depth', np.array_equal(f, r[1]) and np.max(np.abs(r[0] - v)) <= EPS, n=n)
        m.check('ext-nonzero', np.all(r[0] != 0), n=n)
    n2 = int(rng.randint(1, 200)) if rng.randint(3) else int(rng.randint(500, 1500))
    with_faces = bool(rng.randint(2))
    r = sphere_tri_ext(2, n2, *((with_faces,) if with_faces or rng.randint(2) else ()))
    exp = circle_part(n2)
    v = r[0] if with_faces else r
    m.check('ext-2d', isinstance(r, tuple) == with_faces and np.shape(v) == exp.shape and np.max(np.abs(v - exp)) <= EPS, n=n2)
    m.check('ext-nonzero', np.all(v != 0), n=n2)
    if with_faces:
        m.check('ext-2d', np.array_equal(r[1], [[i, (i + 1) % n2] for i in range(n2)]), n=n2, got=r[1])
    m.sig(n, n2, with_faces)
    m.sample(n=n, n2=n2)


def spread(m):
    rng = m.rng
    n = gen.pick(rng, 1, 2, 3, 5, 20, 21, 22, 81, 82) if rng.randint(3) else int(rng.randint(1, 322 if m.tier == 'quick' else 700))
    p = sphere_part(n)
    m.need('spread-count', p.shape == (n, 3), n=n, got=p.shape)
    m.check('spread-unit', np.max(np.abs(np.linalg.norm(p, axis=1) - 1)) <= 1e-12, n=n)
    s = np.linalg.norm(p[:, None, :] + p[None, :, :], axis=2)
    m.check('spread-no-opposite', s.min() > 1e-6, n=n)
    # the points come in turns from the neighbourhoods of the z, x and y axes
    half = np.sort(np.unique(np.round(p, 9), axis=0), axis=0)
    m.check('spread-coverage', len(half) >= math.ceil(n / 3.), n=n, distinct=len(half))
    for k, ax in enumerate((2, 0, 1)):
        t = p[k::3, ax]
        m.check('spread-coverage', np.all(np.diff(t) <= 1e-9), n=n, axis=ax, values=t)
        m.check('spread-coverage', len(np.unique(np.round(p[k::3], 9), axis=0)) == len(t), n=n, axis=ax)
    m.sig(n)
    m.sample(n=n)


def tube(m):
    rng = m.rng
    n_e, n_t = int(rng.randint(3, 13)), int(rng.randint(1, 13))
    f = ell_tube_2_tri(n_e, n_t)
    m.need('tube-indices', f.shape == (2 * n_e * (n_t - 1), 3) and np.array_equal(f, np.round(f)) and
           (f.size == 0 or (f.min() == 0 and f.max() == n_e * n_t - 1)) and
           len(np.unique(f)) == (n_e * n_t if n_t > 1 else 0), n_e=n_e, n_t=n_t, f=f)
    f = f.astype(int)
    cells = {}
    d = {}
    ok = True
    for a, b, c in f.tolist():
        t = min(a // n_e, b // n_e, c // n_e)
        cols = sorted(set(x % n_e for x in (a, b, c)))
        ok &= set(x // n_e for x in (a, b, c)) == {t, t + 1} and len(cols) == 2
        if not ok:
            break
        left = cols[0] if cols[1] - cols[0] == 1 and not (cols == [0, n_e - 1] and n_e > 2) else cols[1]
        if (left + 1) % n_e not in cols:
            ok = False
            break
        cells.setdefault((t, left), []).append(frozenset((a, b, c)))
        for e in ((a, b), (b, c), (c, a)):
            d[e] = d.get(e, 0) + 1
    m.check('tube-cells', ok and len(cells) == n_e * (n_t - 1) and
            all(len(x) == 2 and len(x[0] & x[1]) == 2 and diagonal(x[0] & x[1], n_e) for x in cells.values()), n_e=n_e, n_t=n_t, f=f)
    # consistent orientation; only the two end rings are boundary
    rim = set()
    for t in {0, n_t - 1}:
        for i in range(n_e):
            rim.add(frozenset((t * n_e + i, t * n_e + (i + 1) % n_e)))
    m.check('tube-orientation', all(k == 1 for k in d.values()) and
            all(((b, a) in d) != (frozenset((a, b)) in rim) for a, b in d), n_e=n_e, n_t=n_t, f=f)
    g = ell_tube_discr_tri(n_e, n_t)
    exp = np.array([[t * n_e + (i % n_e) for i in range(n_e + 1)] for t in range(n_t)])
    m.check('tube-curves', np.shape(g) == exp.shape and np.array_equal(g, exp), n_e=n_e, n_t=n_t, got=g)
    m.sig(n_e, n_t)
    m.sample(n_e=n_e, n_t=n_t)


def big_tube(m):
    """Tubes of more vertices than fit a short integer."""
    rng = m.rng
    n_e = int(rng.randint(3, 400))
    n_t = int(gen.pick(rng, 33000, 40000, 66000) // n_e + 1)
    f = np.asarray(ell_tube_2_tri(n_e, n_t)).astype(float)
    m.need('tube-indices', f.shape == (2 * n_e * (n_t - 1), 3) and f.min() == 0 and f.max() == n_e * n_t - 1 and
           len(np.unique(f)) == n_e * n_t, n_e=n_e, n_t=n_t, f=f[:5])
    f = f.astype(int)
    s = np.sort(f // n_e, axis=1)
    m.check('tube-cells', np.all((s[:, 2] - s[:, 0]) == 1), n_e=n_e, n_t=n_t)
    d = f % n_e
    w = np.stack([(d[:, i] - d[:, j]) % n_e for i, j in ((0, 1), (1, 2), (2, 0))], axis=1)
    m.check('tube-cells', np.all((w == 0) | (w == 1) | (w == n_e - 1)) and np.all(np.sum(w == 0, axis=1) == 1), n_e=n_e, n_t=n_t)
    e = np.concatenate([f[:, [i, j]] for i, j in ((0, 1), (1, 2), (2, 0))])
    e = e[:, 0] * (n_e * n_t) + e[:, 1]
    m.check('tube-orientation', len(np.unique(e)) == len(e), n_e=n_e, n_t=n_t)
    g = np.asarray(ell_tube_discr_tri(n_e, n_t))
    exp = np.arange(n_t)[:, None] * n_e + np.arange(n_e + 1)[None] % n_e
    m.check('tube-curves', np.shape(g) == exp.shape and np.array_equal(g, exp), n_e=n_e, n_t=n_t)
    m.sig(n_e, n_t)


def diagonal(common, n_e):
    a, b = sorted(common)
    return a // n_e != b // n_e and a % n_e != b % n_e


CASES = [('circle', circle, 250, 5000), ('sphere', sphere, 8, 20), ('sphere_rejected', sphere_rejected, 4, 20),
         ('ext', ext, 60, 700), ('spread', spread, 60, 700), ('tube', tube, 120, 2000), ('big_tube', big_tube, 3, 20)]
