"""C14  Hyperplane identity and parallelism."""
import numpy as np
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from .. import gen

RULE = ('hyperplanes of dimension 1..6 (through the origin or not) against copies rescaled by factors 1e-2..1e2 of either '
        'sign and against hyperplanes turned in one coordinate or shifted by a clear amount; single/array pairings of '
        'every shape; distinct by content')
REQUIRED = ['equal', 'different', 'parallel', 'not-parallel', 'reported-as-given', 'shape', 'rejected', 'report',
            'queries-keep-data', 'own-tolerance']


def tol_of(h):
    return float(Hyperplane.get_abs_tol([h], None).flatten()[0])


def make(rng, n):
    nv = gen.nzvec(rng, n, 0.2, 5.)
    c = gen.pick(rng, 0., float(rng.uniform(0.1, 4.) * rng.choice([-1., 1.]) * np.linalg.norm(nv)))
    return nv, c


def variant(rng, nv, c):
    """(normal, shift, same set, parallel)."""
    n = nv.size
    f = float(np.exp(rng.uniform(-4, 4)) * rng.choice([-1., 1.]))
    k = rng.randint(6)
    if k < 3:
        return f * nv, f * c, True, True
    if k == 3:
        d = float(gen.pick(rng, 1e-3, 0.1, -0.7, -1e-3)) * np.linalg.norm(nv)
        if c != 0. and rng.randint(3) == 0:
            return f * nv, -f * c, False, True
        return f * nv, f * (c + d), False, True
    if n == 1:
        return f * nv, f * (c + 1.), False, True
    w = nv.copy()
    i = rng.randint(n)
    # turn by a clear angle in one coordinate
    if k == 4 and w[i] != 0. and np.count_nonzero(w) > 1:
        w[i] = -w[i]
    else:
        u = np.zeros(n)
        u[i] = gen.pick(rng, 1e-3, 0.3, -1.) * np.linalg.norm(nv)
        w = w + u
    a, b = w / max(np.linalg.norm(w), 1e-300), nv / np.linalg.norm(nv)
    if np.linalg.norm(w) < 1e-6 or min(np.max(np.abs(a - b)), np.max(np.abs(a + b))) < 5e-5:
        return f * nv, f * c, True, True
    return f * w, f * c, False, False


def clear_of_jump(c, nv, c2, w):
    """The canonical orientation jumps when the shift is nearly but not exactly zero."""
    for s, v in ((c, nv), (c2, w)):
        t = abs(s) / np.linalg.norm(v)
        if 0. < t < 1e-4:
            return False
    return True


def hyp(rng, nv, c, **kw):
    return Hyperplane(gen.vec_form(rng, nv), gen.pick(rng, c, np.array([c]), np.array(c)), **kw)


def pair(m):
    rng = m.rng
    n = gen.dim(rng, 7)
    nv, c = make(rng, n)
    w, c2, same, par = variant(rng, nv, c)
    a, b = hyp(rng, nv, c, **gen.settings(rng, True)), hyp(rng, w, c2, **gen.settings(rng, True))
    for h, v, s in ((a, nv, c), (b, w, c2)):
        q, r = h.parameters()
        q2, r2 = h.double()
        m.check('reported-as-given', np.array_equal(q, v) and float(r) == s and np.array_equal(q2, v) and float(r2) == s and
                np.shape(q) == (n,), got=(q, r), expected=(v, s))
    # rounding of the rescaled data must stay below the tolerances in use
    if min(tol_of(a), tol_of(b)) > 1e-10 and clear_of_jump(c, nv, c2, w):
        mech = 'equal' if same else 'different'
        for x, y in ((a, b), (b, a)):
            eq, rep = Hyperplane.eq([x], [y])
            m.check(mech, np.array(eq).flatten().tolist() == [same], first=(nv, c), second=(w, c2), got=eq, report=rep)
            m.check('report', (len(rep) == 0) == same, report=rep, same=same)
            ne, _ = Hyperplane.ne([x], [y])
            m.check(mech, np.array(ne).flatten().tolist() == [not same], first=(nv, c), second=(w, c2), got=ne)
            m.check(mech, bool(x == y) == same and bool(x != y) == (not same), first=(nv, c), second=(w, c2))
    for x, y in ((a, b), (b, a)):
        p = Hyperplane.is_parallel(gen.pick(rng, [x], x, np.array([x])), gen.pick(rng, [y], y, np.array([y])))
        m.check('parallel' if par else 'not-parallel', np.array(p).flatten().tolist() == [par], first=nv, second=w, got=p)
    x, y = np.array(gen.vec(rng, n)), None
    m.check('queries-keep-data', np.array_equal(a.parameters()[0], nv) and float(a.parameters()[1]) == c and
            np.array_equal(b.parameters()[0], w) and float(b.parameters()[1]) == c2, first=(nv, c), now=a.parameters())
    str(a)
    Hyperplane.contains([a], x)
    Hyperplane.to_dict([a], True)
    a.parameters()[0][:] = 7.
    m.check('queries-keep-data', np.array_equal(a.parameters()[0], nv) and float(a.parameters()[1]) == c, now=a.parameters())
    m.sig(nv, c, w, c2)
    m.sample(first=(nv, c), second=(w, c2), same=same, parallel=par)


def arrays(m):
    rng = m.rng
    n = gen.dim(rng, 6)
    shp = gen.shape(rng, multi=True)
    k = int(np.prod(shp))
    kind = rng.randint(3)
    one = make(rng, n)
    first, second, same, par = [], [], [], []
    for _ in range(k):
        base = one if kind else make(rng, n)
        v = variant(rng, *base)
        while not clear_of_jump(base[1], base[0], v[1], v[0]):
            v = variant(rng, *base)
        if kind == 0 or not first:
            first.append(hyp(rng, *base))
        second.append(hyp(rng, v[0], v[1]))
        same.append(v[2])
        par.append(v[3])
    if kind:
        fa = gen.pick(rng, first[0], [first[0]], gen.obj_array(first[:1], (1,) * rng.randint(1, 4)))
    else:
        fa = gen.as_arg(rng, first, shp)
    sa = gen.as_arg(rng, second, shp)
    args = (fa, sa) if kind != 2 else (sa, fa)
    if rng.randint(4) == 0:        # the same object twice on the longer side
        i, j = rng.randint(k), rng.randint(k)
        if kind:
            second[i], same[i], par[i] = second[j], same[j], par[j]
            sa = gen.as_arg(rng, second, shp)
            args = (fa, sa) if kind != 2 else (sa, fa)
    p = Hyperplane.is_parallel(*args)
    m.check('shape', np.shape(p) == shp, got=np.shape(p), shp=shp)
    m.check('parallel', np.array(p).flatten().tolist() == par, got=p, expected=par, kind=kind, shp=shp)
    eq, rep = Hyperplane.eq(*args)
    m.check('shape', np.shape(eq) == shp, got=np.shape(eq), shp=shp)
    m.check('equal', np.array(eq).flatten().tolist() == same, got=eq, expected=same, kind=kind, shp=shp)
    m.check('report', (len(rep) == 0) == all(same), report=rep, same=same)
    ne, _ = Hyperplane.ne(*args)
    m.check('different', np.array(ne).flatten().tolist() == [not s for s in same], got=ne, expected=same)
    m.sig([list(h.parameters()) for h in first + second], shp)


def tolerances(m):
    """Parallelism is judged with the tolerance of the first hyperplane of each pair."""
    rng = m.rng
    n = gen.dim(rng, 6, lo=2)
    shp = gen.shape(rng, multi=True)
    k = int(np.prod(shp))
    kind = rng.randint(3)
    first, second, par = [], [], []
    base = gen.nzvec(rng, n, 0.5, 3.)
    tol = None
    for i in range(k):
        if kind != 1 or tol is None:
            tol = float(10. ** rng.uniform(-6, -2))
        v = base if kind else gen.nzvec(rng, n, 0.5, 3.)
        u = v / np.linalg.norm(v)
        w = rng.standard_normal(n)
        w = w - (w @ u) * u
        if np.linalg.norm(w) < 1e-3:
            m.trivial = True
            return
        w = w / np.max(np.abs(w))
        f = gen.pick(rng, 0.2, 0.6, 1.7, 5.)
        b = u + f * tol * w
        dev = float(np.max(np.abs(b / np.linalg.norm(b) - u)))
        if abs(dev / tol - 1.) < 0.2:
            m.trivial = True
            return
        b = b * float(np.exp(rng.uniform(-3, 3)) * rng.choice([-1., 1.]))
        if kind == 2:                                # one second hyperplane: its own tolerance never counts
            first.append(hyp(rng, b, float(rng.uniform(-2, 2)), abs_tol=tol))
            if not second:
                second.append(hyp(rng, v, 1., abs_tol=float(10. ** rng.uniform(-9, -1))))
        else:
            if kind == 0 or not first:
                first.append(hyp(rng, v, float(rng.uniform(-2, 2)), abs_tol=tol))
            second.append(hyp(rng, b, float(rng.uniform(-2, 2)), abs_tol=float(10. ** rng.uniform(-9, -1))))
        par.append(bool(dev < tol))
    one = lambda x: gen.pick(rng, x[0], [x[0]], np.array([x[0]]))
    a = gen.as_arg(rng, first, shp) if kind != 1 else one(first)
    b = gen.as_arg(rng, second, shp) if kind != 2 else one(second)
    p = np.array(Hyperplane.is_parallel(a, b))
    m.check('shape', p.shape == shp, got=p.shape, shp=shp)
    m.check('own-tolerance', p.flatten().tolist() == par, got=p, expected=par, kind=kind, shp=shp,
            tolerances=[tol_of(h) for h in first])
    m.sig([list(h.parameters()) for h in first + second], shp)


def far(m):
    """Hyperplanes far from the origin: shifts are compared relatively."""
    rng = m.rng
    n = gen.dim(rng, 6)
    nv = gen.nzvec(rng, n, 0.2, 5.)
    c = float(10. ** rng.uniform(4, 12) * rng.choice([-1., 1.]) * np.linalg.norm(nv))
    rt = float(10. ** rng.uniform(-11, -4))
    f = gen.pick(rng, 0.2, 0.7, 1.4, 5.) * rng.choice([-1., 1.])
    g = float(np.exp(rng.uniform(-4, 4)) * rng.choice([-1., 1.]))
    kw = [dict(abs_tol=1e-9, rel_tol=r) for r in (rt, rt * gen.pick(rng, 1., 1., 30.))]
    kw = [kw[i] for i in rng.permutation(2)]
    a, b = Hyperplane(nv, c, **kw[0]), Hyperplane(g * nv, g * c * (1. + f * rt), **kw[1])
    same = bool(abs(f) < 1.)
    for x, y in ((a, b), (b, a)):
        eq, rep = Hyperplane.eq([x], [y])
        m.check('equal' if same else 'different', np.array(eq).flatten().tolist() == [same] and (rep == '') == same, normal=nv, shift=c,
                factor=g, tolerance=rt, away=f, got=eq, report=rep)
    m.check('parallel', np.array(Hyperplane.is_parallel(a, b)).flatten().tolist() == [True], normal=nv, factor=g)
    s = float(Hyperplane.to_dict([a])[0].flat[0]['shift'])
    e = abs(c) / float(np.linalg.norm(nv))
    m.check('equal', abs(s - e) <= 1e-13 * e, got=s, expected=e)
    m.sig(nv, c, g, f, rt)


def rejected(m):
    rng = m.rng
    n = gen.dim(rng, 5)
    hs = [hyp(rng, *make(rng, n)) for _ in range(6)]
    m.raises('rejected', lambda: Hyperplane.is_parallel(hs[:2], hs[2:5]))
    m.raises('rejected', lambda: Hyperplane.is_parallel(gen.obj_array(hs, (2, 3)), gen.obj_array(hs, (3, 2))))
    m.raises('rejected', lambda: Hyperplane.eq(hs[:2], hs[2:5]))
    m.raises('rejected', lambda: Hyperplane.is_parallel([1], hs[:1]))
    m.raises('rejected', lambda: Hyperplane.is_parallel(hs[:1], ['a']))
    # different dimensions: neither parallel nor equal
    o = hyp(rng, *make(rng, n + 1))
    m.check('not-parallel', not np.any(Hyperplane.is_parallel([hs[0]], [o])), n=n)
    m.check('different', not np.any(Hyperplane.eq([hs[0]], [o])[0]), n=n)
    for bad in ((np.array([np.nan, 1.]), 0.), (np.array([np.inf, 1.]), 0.), (np.ones((2, 2)), 0.), (np.ones(2), np.nan),
                (np.ones(2), np.inf), (np.ones(2), np.ones(2)), (np.ones(2) + 1e-3j, 0.), (np.ones(2), 'a'),
                (np.array(['a']), 0.)):
        m.raises('rejected', lambda: Hyperplane(*bad), bad=bad)
    m.sig(m.index)


CASES = [('large_pair', gen.large(pair, 20, 70), 12, 300), ('large_arrays', gen.large(arrays, 20, 70), 12, 300),
         ('crowd_arrays', gen.crowded(arrays, 500), 8, 150),
         ('pair', pair, 500, 15000), ('arrays', arrays, 150, 4000), ('tolerances', tolerances, 100, 3000), ('far', far, 60, 2000), ('rejected', rejected, 12, 100)]
