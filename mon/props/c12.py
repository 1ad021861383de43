"""C12  Volume, trace, eigenvalue bounds, dimension and rank."""
from math import gamma, pi
import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.core import ell_unitball
from .. import gen

RULE = ('arrays (single object, lists, 0..3-D arrays) of full, degenerate, nearly degenerate (smallest eigenvalue 0.3 or '
        '3 times the tolerance) and point ellipsoids of dimension 1..16, each with its own tolerance, and empty ellipsoids; '
        'distinct by content')
REQUIRED = ['volume', 'trace', 'min-eig', 'max-eig', 'dimension', 'rank', 'degenerate', 'is-empty', 'empty-rejected']
DEF_TOL = None


def make(rng, n):
    kw = gen.settings(rng)
    tol = kw.get('abs_tol')
    k = rng.randint(6)
    if k < 2:
        e = rng.uniform(-1, 3) if rng.randint(3) else rng.uniform(-15, 12)
        sh = gen.spd(rng, n, 0.02, 5.) * 10. ** e
        if e < -1:
            kw['abs_tol'] = float(10. ** min(-9, e - 3))
        rank, deg = n, False
    elif k < 4:
        rank = rng.randint(0, n)
        sh = gen.psd(rng, n, rank)
        deg = True
    elif rng.randint(4) == 0:               # nonnegative definite within its own tolerance only
        sh, kw['abs_tol'], _ = gen.loose(rng, n, -6, -0.5)
        rank, deg = n, True
    else:
        tol = tol or float(10. ** rng.uniform(-7, -3))
        kw['abs_tol'] = tol
        d = rng.uniform(0.5, 3., n)
        deg = k == 4
        d[rng.randint(n)] = (0.3 if deg else 3.) * tol
        u = gen.orth(rng, n) if tol > 1e-8 else np.eye(n)
        sh = gen.sym(u @ np.diag(d) @ u.T)
        rank = n
    return Ellipsoid(gen.center(rng, n), sh, **kw), sh, rank, deg, k < 2


def vol(sh):
    n = sh.shape[0]
    return pi ** (n / 2.) / gamma(n / 2. + 1.) * np.sqrt(np.prod(np.linalg.eigvalsh(sh)))


def low(sh):
    """Independent of the ordering of eigenvalue routines; a negative one is told by its sign."""
    w = np.linalg.eigvals(sh)
    return float(np.min(w.real)) if np.min(w.real) < -1e-9 else float(np.linalg.svd(sh, compute_uv=False)[-1])


def top(sh):
    w = np.linalg.eigvals(sh).real
    return float(np.max(w)) if np.min(w) < -1e-9 else float(np.linalg.norm(sh, 2))


def many(m):
    rng = m.rng
    shp = gen.shape(rng)
    k = int(np.prod(shp))
    items = gen.alias(rng, [make(rng, rng.randint(1, 9) if rng.randint(10) else rng.randint(9, 17)) for _ in range(k)])
    ells = [i[0] for i in items]
    def arg():
        return gen.as_arg(rng, ells, shp)
    a = arg()
    exp_shape = np.shape(np.array(a))

    def s0(it):
        return float(np.max(np.abs(it[1]))) if it[4] else 1.

    def per(mech, got, exp, tol, shaped=False):
        g = np.array(got)
        m.check(mech, g.size == k and (not shaped or g.shape == exp_shape) and
                all(abs(float(x) - y) <= tol * max(0. if it[4] and mech in ('volume', 'trace') else s0(it), abs(y))
                    for x, y, it in zip(g.flatten(), exp, items)),
                got=got, expected=exp, shp=shp, shapes=[i[1] for i in items][:3])
    per('volume', Ellipsoid.volume(arg()), [0. if d else vol(s) for _, s, _, d, _ in items], 1e-8)
    m.check('volume', all((v == 0.) == d for v, (_, _, _, d, _) in zip(np.array(Ellipsoid.volume(arg())).flatten(), items)))
    per('trace', Ellipsoid.trace(arg()), [float(sum(s[j, j] for j in range(len(s)))) for _, s, _, _, _ in items], 1e-12)
    per('min-eig', Ellipsoid.min_eig(arg()), [low(s) for _, s, _, _, _ in items], 1e-10)
    per('max-eig', Ellipsoid.max_eig(arg()), [top(s) for _, s, _, _, _ in items], 1e-10)
    per('dimension', Ellipsoid.dimension(a), [len(s) for _, s, _, _, _ in items], 0., True)
    dim, rank = Ellipsoid.dimension(a, return_rank=True)
    per('dimension', dim, [len(s) for _, s, _, _, _ in items], 0., True)
    per('rank', rank, [r for _, _, r, _, _ in items], 0., True)
    deg = Ellipsoid.is_degenerate(a)
    per('degenerate', deg, [int(d) for _, _, _, d, _ in items], 0., True)
    per('is-empty', Ellipsoid.is_empty(a), [0] * k, 0., True)
    m.sig([list(e.parameters()) for e in ells], shp)
    m.sample(shp=shp, shapes=[i[1] for i in items][:2])


def empty(m):
    rng = m.rng
    e = Ellipsoid()
    full = make(rng, rng.randint(1, 5))[0]
    shp = gen.shape(rng)
    k = int(np.prod(shp))
    flags = [bool(rng.randint(2)) for _ in range(k)]
    flags[rng.randint(k)] = True
    ells = [Ellipsoid(**gen.settings(rng)) if f else make(rng, rng.randint(1, 5))[0] for f in flags]
    a = gen.as_arg(rng, ells, shp)
    emp = Ellipsoid.is_empty(a)
    m.check('is-empty', np.array(emp).flatten().tolist() == flags and np.shape(emp) == np.shape(np.array(a)), got=emp, exp=flags)
    dim = np.array(Ellipsoid.dimension(a)).flatten()
    m.check('dimension', all((d == 0) == f for d, f in zip(dim, flags)), got=dim, exp=flags)
    for f in (Ellipsoid.volume, Ellipsoid.trace, Ellipsoid.min_eig, Ellipsoid.max_eig, Ellipsoid.is_degenerate):
        m.raises('empty-rejected', lambda: f(a), 'empty')
        m.raises('empty-rejected', lambda: f(gen.pick(rng, e, [e], np.array([e]))), 'empty')
        m.raises('empty-rejected', lambda: f([full, e]), 'empty')
    for f in (Ellipsoid.volume, Ellipsoid.trace, Ellipsoid.min_eig, Ellipsoid.max_eig, Ellipsoid.is_degenerate,
              Ellipsoid.dimension, Ellipsoid.is_empty):
        m.raises('empty-rejected', lambda: f([1, 2]))
        m.raises('empty-rejected', lambda: f(['a']))
    m.sig(flags, shp)


def balls(m):
    """Known values in every dimension."""
    n = 1 + m.index % 45
    r = float(m.rng.uniform(0.3, 3.))
    e = Ellipsoid(r * r * np.eye(n))
    exp = pi ** (n / 2.) / gamma(n / 2. + 1.)
    m.close('volume', float(Ellipsoid.volume([e])[0]) / r ** n, exp, 1e-10)
    m.close('volume', float(Ellipsoid.volume([ell_unitball(n)])[0]), exp, 1e-10)
    d = np.exp(m.rng.uniform(-1, 1, n))
    got = float(Ellipsoid.volume([Ellipsoid(np.diag(d))])[0]) / np.exp(0.5 * np.sum(np.log(d)))
    m.check('volume', abs(got - exp) <= 1e-9 * exp, got=got, expected=exp, axes=d)
    m.check('volume', abs(float(Ellipsoid.volume([e])[0]) / r ** n - exp) <= 1e-9 * exp, dim=n, radius=r, expected=exp)
    m.close('trace', float(Ellipsoid.trace([e])[0]), n * r * r, 1e-10)
    m.close('min-eig', float(Ellipsoid.min_eig([e])[0]), r * r, 1e-10)
    m.close('max-eig', float(Ellipsoid.max_eig([e])[0]), r * r, 1e-10)
    m.sig(n, r)


CASES = [('crowd_many', gen.crowded(many, 600), 10, 200), ('crowd_empty', gen.crowded(empty, 300), 5, 100),
         ('many', many, 400, 12000), ('empty', empty, 100, 2000), ('balls', balls, 45, 225)]
