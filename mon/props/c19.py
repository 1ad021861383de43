"""C19  Quadratic forms, inverse, ellipsoid volume and fusion criterion."""
from math import gamma, pi
import numpy as np
from ellipy.gras.geom.ell.ell import quad_mat, inv_mat, ell_volume
from ellipy.elltool.core.core import ell_fusion_lambda
from .. import gen

RULE = ('matrices of dimension 1..8 (definite, indefinite, asymmetric), vectors and centres in flat, row and column form, '
        'default, scalar zero and explicit centres, all modes in any letter case; pairs of ellipsoids and weights for the '
        'fusion criterion; distinct by content')
REQUIRED = ['plain', 'inv', 'invadv', 'inverse', 'volume', 'fusion', 'fusion-derivative', 'rejected']


def num(x):
    return float(np.array(x).flatten()[0]) if np.size(x) == 1 else np.nan


def quad(m):
    rng = m.rng
    n = gen.dim(rng, 9)
    k = rng.randint(4)
    q = gen.spd(rng, n) if k < 2 else gen.symm(rng, n) if k == 2 else gen.spd(rng, n) + 0.3 * rng.standard_normal((n, n))
    if k == 3 and np.linalg.cond(q) > 1e3:
        q = gen.spd(rng, n)
    if rng.randint(8) == 0:
        q = np.diag(rng.randint(1, 6, n))
    x, c = gen.vec(rng, n), gen.vec(rng, n)
    if rng.randint(6) == 0:
        x = rng.randint(-4, 5, n)
    kind = rng.randint(5)
    if kind == 0:
        args, c = (), np.zeros(n)
    elif kind == 1:
        args, c = (gen.pick(rng, 0, 0., np.array([0.]), np.array(0.)),), np.zeros(n)
    else:
        args = (gen.vec_form(rng, c),)
    if rng.randint(4) == 0:                          # any scales of the matrix and of the vectors
        s, t = 10. ** rng.randint(-12, 13), 10. ** rng.randint(-12, 13)
        q, x, c = q * s, x * t, c * t
        if len(args) and np.any(c):
            args = (gen.vec_form(rng, c),)
    y = x - c
    kap = np.linalg.cond(q)
    for mode in ('plain', 'inv', 'invadv'):
        exp = float(y @ q @ y) if mode == 'plain' else float(y @ np.linalg.solve(q, y))
        scale = float(y @ y) * (np.linalg.norm(q) if mode == 'plain' else np.linalg.norm(np.linalg.inv(q))) + 1e-300
        name = gen.pick(rng, mode, mode.upper(), mode.capitalize())
        if mode == 'plain' and rng.randint(2):
            got = quad_mat(q.copy(), gen.vec_form(rng, x), *args)
        elif args:
            got = quad_mat(q.copy(), gen.vec_form(rng, x), args[0], name)
        else:
            got = quad_mat(q.copy(), gen.vec_form(rng, x), mode=name)
        m.check(mode, abs(num(got) - exp) <= 1e-11 * scale * kap, got=got, expected=exp, q=q, x=x, c=c)
    m.sig(q, x, c)
    m.sample(q=q, x=x, c=c)


def inverse(m):
    rng = m.rng
    n = gen.dim(rng, 9)
    k = rng.randint(3)
    q = gen.spd(rng, n) if k == 0 else gen.symm(rng, n) if k == 1 else gen.orth(rng, n) @ np.diag(rng.uniform(0.3, 3., n))
    q = q * 10. ** rng.uniform(-2, 2)
    if k == 0 and rng.randint(2):                    # badly conditioned, the purpose of the two-step inverse
        u = gen.orth(rng, n)
        q = gen.sym(u @ np.diag(10. ** rng.uniform(-5, 0, n)) @ u.T)
    got = inv_mat(q.copy())
    kap = np.linalg.cond(q)
    m.check('inverse', np.shape(got) == (n, n) and np.max(np.abs(got @ q - np.eye(n))) <= 1e-12 * kap * n and
            np.max(np.abs(q @ got - np.eye(n))) <= 1e-12 * kap * n, q=q, got=got)
    # every entry counts, however small the others make it
    d = 10. ** rng.uniform(-12, 12, n) * rng.choice([-1., 1.], n)
    o = rng.permutation(n)
    got = inv_mat(np.diag(d)[o])
    m.check('inverse', np.shape(got) == (n, n) and np.allclose(got, np.diag(1. / d)[:, o], 1e-9, 0.), q=np.diag(d)[o], got=got)
    if rng.randint(3) == 0:
        n = gen.dim(rng, 24, lo=2)
    p = gen.spd(rng, n, 0.1, 9.)
    vol = ell_volume(p.copy())
    exp = pi ** (n / 2.) / gamma(n / 2. + 1.) * np.prod(np.sqrt(np.linalg.eigvalsh(p)))
    m.check('volume', abs(float(vol) - exp) <= 1e-9 * exp, q=p, got=vol, expected=exp)
    m.sig(q, p)


def fusion(m):
    rng = m.rng
    n = gen.dim(rng, 6)
    q1m, q2m = gen.spd(rng, n), gen.spd(rng, n)
    if rng.randint(6) == 0:
        q2m = q1m.copy()
    q1, q2 = gen.vec(rng, n, 0.5), gen.vec(rng, n, 0.5)
    a = float(gen.pick(rng, 0., 1., 0.5, rng.uniform(0., 1.)))
    col = rng.randint(2)
    f = (lambda v: v.reshape(-1, 1).copy()) if col else (lambda v: v.copy())
    got = num(ell_fusion_lambda(a, f(q1), q1m.copy(), f(q2), q2m.copy(), n))

    # the fused set {x: a |x - q1|_Q1 + (1 - a) |x - q2|_Q2 <= 1} is |x - q|_X <= k; volume^2 ~ k^n / det X
    def parts(t):
        x = t * q1m + (1 - t) * q2m
        b = t * q1m @ q1 + (1 - t) * q2m @ q2
        q = np.linalg.solve(x, b)
        k = 1. - t * q1 @ q1m @ q1 - (1 - t) * q2 @ q2m @ q2 + q @ x @ q
        return x, q, k
    x, q, k = parts(a)
    dk = -q1 @ q1m @ q1 + q2 @ q2m @ q2 + 2 * q @ (q1m @ q1 - q2m @ q2) - q @ (q1m - q2m) @ q
    dx = float(np.trace(np.linalg.solve(x, q1m - q2m)))
    d = np.prod(np.linalg.eigvalsh(x))
    exp = d * d * (k * dx - n * dk)
    scale = d * d * (abs(k * dx) + n * abs(dk)) + d * d + 1.
    m.check('fusion', abs(got - exp) <= 1e-8 * scale, got=got, expected=exp, a=a, q1=q1, q1m=q1m, q2=q2, q2m=q2m)
    h = 1e-5

    def ratio(t):
        x, _, k = parts(t)
        return k, np.linalg.slogdet(x)[1]
    (k1, l1), (k0, l0) = ratio(a + h), ratio(a - h)
    num_d = d * d * (k * (l1 - l0) / (2 * h) - n * (k1 - k0) / (2 * h))
    m.check('fusion-derivative', abs(got - num_d) <= 1e-4 * scale * (1. + np.linalg.cond(x)) , got=got, expected=num_d, a=a)
    m.sig(a, q1, q1m, q2, q2m)


def whole(m):
    """Whole numbers of any type are numbers like others."""
    rng = m.rng
    n = gen.dim(rng, 4)
    q = np.abs(gen.whole(rng, n))
    q[q <= 0] = 1
    tp = q.dtype
    x, c = gen.whole(rng, n).astype(tp), gen.whole(rng, n).astype(tp)
    fq, y = q.astype(float), x.astype(float) - c.astype(float)
    for mode in ('plain', 'inv', 'invadv'):
        exp = float(np.sum(y * y * (fq if mode == 'plain' else 1. / fq)))
        m.check(mode, abs(num(quad_mat(np.diag(q), x.copy(), c.copy(), mode)) - exp) <= 1e-9 * exp, q=q, x=x, c=c, expected=exp)
    m.check('inverse', np.allclose(inv_mat(np.diag(q)), np.diag(1. / fq), 1e-9, 0.), q=q)
    exp = pi ** (n / 2.) / gamma(n / 2. + 1.) * np.prod(np.sqrt(fq))
    m.check('volume', abs(float(ell_volume(np.diag(q))) - exp) <= 1e-9 * exp, q=q, expected=exp)
    p = np.abs(gen.whole(rng, n))
    p[p <= 0] = 1
    q1, q2 = rng.randint(0, 100, n).astype(tp), rng.randint(0, 100, n).astype(p.dtype)
    a = float(rng.uniform(0., 1.))
    fp, f1, f2 = p.astype(float), q1.astype(float), q2.astype(float)
    d = a * fq + (1 - a) * fp
    w = (a * fq * f1 + (1 - a) * fp * f2) / d
    k = 1. - a * (1. - a) * np.sum((f2 - f1) ** 2 * fq * fp / d)
    det = np.prod(d)
    terms = [2 * np.sum(w * fq * f1), -2 * np.sum(w * fp * f2), np.sum(w * w * (fp - fq)), -np.sum(f1 * f1 * fq), np.sum(f2 * f2 * fp)]
    tr = np.sum((fq - fp) / d)
    exp = det ** 2 * (k * tr - n * sum(terms))
    scale = det ** 2 * ((1. + abs(k - 1.)) * np.sum((fq + fp) / d) + n * np.sum(np.abs(terms)))
    got = num(ell_fusion_lambda(a, q1, np.diag(q), q2, np.diag(p), n))
    m.check('fusion', abs(got - exp) <= 1e-9 * scale, got=got, expected=exp, a=a, q1=q1, q=q, q2=q2, p=p)
    m.sig(q, x, c, p)


def rejected(m):
    rng = m.rng
    n = gen.dim(rng, 7, lo=2)
    q, x = gen.spd(rng, n), gen.vec(rng, n)
    for mode in ('plain', 'inv', 'invadv'):
        m.raises('rejected', lambda: quad_mat(np.ones((n, n + 1)), x, 0., mode))
        m.raises('rejected', lambda: quad_mat(np.ones(n), x, 0., mode))
        m.raises('rejected', lambda: quad_mat(np.ones((n, n, 1)), x, 0., mode))
        m.raises('rejected', lambda: quad_mat(q, np.ones(n + 1), 0., mode))
        m.raises('rejected', lambda: quad_mat(q, x, np.ones(n + 1), mode))
        m.raises('rejected', lambda: quad_mat(q, x, np.ones((n + 1, 1)), mode))
        m.raises('rejected', lambda: quad_mat(q, x, np.zeros(n + 1), mode))
        m.raises('rejected', lambda: quad_mat(q, x, np.zeros((1, n + 3)), mode))
        m.raises('rejected', lambda: quad_mat(q, x, np.zeros((n, n)), mode))
        m.raises('rejected', lambda: quad_mat(q, x, 2., mode))
        m.raises('rejected', lambda: quad_mat(q, np.ones((n, n)), 0., mode))
        m.raises('rejected', lambda: quad_mat(q, np.ones((1, n, 1)), 0., mode))
        m.raises('rejected', lambda: quad_mat(q, x, np.ones((n, n)), mode))
        m.raises('rejected', lambda: quad_mat(q, x, np.ones((1, n, 1)), mode))
        m.raises('rejected', lambda: quad_mat(q, np.array(['a'] * n), 0., mode))
    for mode in ('', 'inverse', 'plain1', 'adv'):
        m.raises('rejected', lambda: quad_mat(q, x, 0., mode))
    m.raises('rejected', lambda: inv_mat(np.ones((n, n + 1))))
    m.raises('rejected', lambda: inv_mat(np.ones(n)))
    m.raises('rejected', lambda: inv_mat(np.ones((n, n, 1))))
    m.sig(q, x)


CASES = [('large_quad', gen.large(quad, 20, 70), 12, 300), ('large_inverse', gen.large(inverse, 20, 70), 12, 300), ('large_fusion', gen.large(fusion, 20, 70), 12, 300),
         ('quad', quad, 600, 20000), ('inverse', inverse, 400, 12000), ('fusion', fusion, 300, 10000), ('whole', whole, 60, 2000),
         ('rejected', rejected, 12, 60)]
