"""C20  Page-wise matrix-array operations equal per-page linear algebra."""
import numpy as np
from ellipy.gras.gen.gen import MatVector, SquareMatVector, mat_dot
from .. import gen

RULE = ('stacks of 1..5 pages of matrices with 1..5 rows and columns (float, integer, Fortran-ordered and strided views) and '
        'single matrices where accepted; every page recomputed on its own; distinct by content')
REQUIRED = ['transpose', 'triu', 'symmetric', 'inverse', 'pseudo-inverse', 'root', 'product', 'product-3', 'sparse-dense',
            'scalar-product', 'vectors', 'two-sided', 'quadratic', 'divide', 'function', 'nan-or-definite', 'definite-by-eig',
            'average-diagonal', 'rejected', 'shape']


def lay(rng, a):
    """The same values in another memory layout."""
    k = rng.randint(4)
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        return np.repeat(a, 2, axis=-1)[..., ::2]
    if k == 2:
        return np.ascontiguousarray(a.T).T
    return a.copy()


def stack(rng, r, c, t, ints=True):
    if ints and rng.randint(5) == 0:
        return rng.randint(-5, 6, (r, c, t))
    return rng.standard_normal((r, c, t)) * 10. ** rng.uniform(-1, 1)


def pages(m, mech, got, exp_pages, tol=1e-10, **kw):
    t = len(exp_pages)
    exp = np.stack([np.asarray(p, dtype=float) for p in exp_pages], axis=-1)
    if not m.check('shape', np.shape(got) == exp.shape, op=mech, got=np.shape(got), expected=exp.shape, **kw):
        return
    g = np.asarray(got, dtype=float)
    nan = np.isnan(exp)
    s = max(1., float(np.max(np.abs(exp[~nan]))) if np.any(~nan) else 1.)
    m.check(mech, np.array_equal(np.isnan(g), nan) and np.all(np.abs(g[~nan] - exp[~nan]) <= tol * s), got=got, expected=exp, **kw)


def dims(rng, hi=6):
    return gen.dim(rng, hi), gen.dim(rng, hi), gen.many(rng, 6, 600)


def basic(m):
    rng = m.rng
    r, c, t = dims(rng)
    a = stack(rng, r, c, t)
    pg = [a[:, :, i] for i in range(t)]
    pages(m, 'transpose', MatVector.transpose(lay(rng, a)), [p.T for p in pg], 0.)
    pages(m, 'triu', MatVector.triu(lay(rng, a)), [np.triu(p) for p in pg], 0.)
    pages(m, 'pseudo-inverse', MatVector.pinv(lay(rng, a)), [np.linalg.pinv(p) for p in pg])
    pages(m, 'transpose', MatVector.transpose(lay(rng, pg[0])), [pg[0].T], 0.)
    pages(m, 'triu', MatVector.triu(lay(rng, pg[0])), [np.triu(pg[0])], 0.)
    pages(m, 'pseudo-inverse', MatVector.pinv(lay(rng, pg[0])), [np.linalg.pinv(pg[0])])
    # far apart singular values are still all inverted
    k = min(r, c)
    w = [gen.orth(rng, r)[:, :k] @ np.diag(10. ** rng.uniform(-5.6, 5.6, k)) @ gen.orth(rng, c)[:, :k].T for _ in range(t)]
    got = MatVector.pinv(lay(rng, np.stack(w, axis=2)))
    m.check('pseudo-inverse', np.shape(got) == (c, r, t) and all(
        np.max(np.abs((got[:, :, i] @ w[i] if r >= c else w[i] @ got[:, :, i]) - np.eye(k))) <= 1e-2 for i in range(t)),
        got=got, pages=w)
    n = r
    s = stack(rng, n, n, t)
    sp = [s[:, :, i] for i in range(t)]
    pages(m, 'symmetric', MatVector.make_symmetric(lay(rng, s)), [0.5 * (p + p.T) for p in sp], 1e-14)
    pages(m, 'symmetric', MatVector.make_symmetric(lay(rng, sp[0])), [0.5 * (sp[0] + sp[0].T)], 1e-14)
    b = stack(rng, n, n, t)
    pages(m, 'average-diagonal', mat_dot(lay(rng, s), lay(rng, b)),
          [np.array([[np.trace(s[:, :, i] @ b[:, :, i].T) / n]]) for i in range(t)])
    m.close('average-diagonal', float(mat_dot(sp[0], b[:, :, 0])), np.trace(sp[0].T @ b[:, :, 0]) / n, 1e-11)
    m.sig(a, s, b)
    m.sample(stack=a)
    m.raises('rejected', lambda: mat_dot(np.ones((r, c + r, t)), np.ones((r, c + r, t))))
    m.raises('rejected', lambda: mat_dot(np.ones((r, r, t)), np.ones((r, r, t + 1))))
    m.raises('rejected', lambda: mat_dot(np.ones((r, r)), np.ones((r + 1, r + 1))))


def square(m):
    rng = m.rng
    n, _, t = dims(rng)
    pd = [gen.spd(rng, n) if rng.randint(3) else gen.psd(rng, n) for _ in range(t)]
    inv = [gen.spd(rng, n) if rng.randint(2) else gen.orth(rng, n) @ np.diag(rng.uniform(.5, 2., n)) for _ in range(t)]
    st = np.stack(inv, axis=2)
    pages(m, 'inverse', SquareMatVector.inv(lay(rng, st)), [np.linalg.inv(p) for p in inv])
    m.close('inverse', SquareMatVector.inv(inv[0].copy()), np.linalg.inv(inv[0]), 1e-10)
    # sizes far apart are still all inverted
    d = [2. ** rng.randint(-70, 70, n) * rng.choice([-1., 1.], n) for _ in range(t)]
    got = SquareMatVector.inv(np.stack([np.diag(x) for x in d], axis=2))
    m.check('inverse', np.shape(got) == (n, n, t) and all(np.allclose(got[:, :, i], np.diag(1. / d[i]), 1e-12, 0.) for i in range(t)), got=got, diagonals=d)
    got = SquareMatVector.inv(np.diag(d[0]))
    m.check('inverse', np.allclose(got.reshape(n, n), np.diag(1. / d[0]), 1e-12, 0.), got=got, diagonal=d[0])
    # roots; psd pages are made exactly positive semidefinite
    roots, sq = [], []
    for p in pd:
        w, v = np.linalg.eigh(p)
        if np.min(w) < 1e-3:
            p = np.diag(np.abs(np.round(rng.uniform(0, 3, n))))
            roots.append(np.sqrt(p))
        else:
            roots.append(v @ np.diag(np.sqrt(w)) @ v.T)
        sq.append(p)
    if t > 1 and rng.randint(3) == 0:
        i = rng.randint(t)
        sq[i] = sq[i].copy()
        sq[i][rng.randint(n), rng.randint(n)] = np.nan
        roots[i] = np.full((n, n), np.nan)
    ok = all(np.isnan(p).any() or np.array_equal(p, p.T) for p in sq)
    if ok:
        pages(m, 'root', SquareMatVector.sqrtm_pos(lay(rng, np.stack(sq, axis=2))), roots, 1e-8)
        j = [i for i in range(t) if not np.isnan(sq[i]).any()][0]
        m.close('root', SquareMatVector.sqrtm_pos(sq[j].copy()), roots[j], 1e-8)
    # definiteness
    sy = [gen.spd(rng, n) if rng.randint(2) else gen.symm(rng, n) for _ in range(t)]
    if rng.randint(3) == 0:                 # just below or just above zero
        i = rng.randint(t)
        u = gen.orth(rng, n) if rng.randint(2) else np.eye(n)
        e = rng.uniform(0.5, 2., n)
        e[rng.randint(n)] = rng.choice([-1., 1.]) * 10. ** rng.uniform(-12, -2)
        sy[i] = u @ np.diag(e) @ u.T
    sy = np.stack([gen.sym(p) for p in sy], axis=2)
    w = [np.linalg.eigh(sy[:, :, i]) for i in range(t)]
    pages(m, 'nan-or-definite', SquareMatVector.make_pos_definite_or_nan(lay(rng, sy)),
          [sy[:, :, i] if np.min(w[i][0]) > 0 else np.full((n, n), np.nan) for i in range(t)], 0.)
    val = float(gen.pick(rng, 1e-12, 1e-3, 0.7))
    args = () if val == 1e-12 else (val,)
    exp = [w[i][1] @ np.diag(np.where(w[i][0] < 0, val, w[i][0])) @ w[i][1].T for i in range(t)]
    pages(m, 'definite-by-eig', SquareMatVector.make_pos_definite_by_eig(lay(rng, sy), *args), exp)
    m.close('definite-by-eig', SquareMatVector.make_pos_definite_by_eig(sy[:, :, 0].copy(), *args), exp[0], 1e-10)
    if n > 1:
        bad = sy.copy()
        bad[0, n - 1, rng.randint(t)] += 0.1
        m.raises('rejected', lambda: SquareMatVector.make_pos_definite_by_eig(bad))
    m.sig(st, sy)


def product(m):
    rng = m.rng
    r, k, t = dims(rng)
    l, c = rng.randint(1, 6), rng.randint(1, 6)
    if rng.randint(2):
        r, k, l, c = [max(2, x) for x in (r, k, l, c)]
    a = stack(rng, r, k, t)
    bt = gen.pick(rng, t, t, 1, None)
    b = stack(rng, k, l, t if bt is None else bt)
    b = b[:, :, 0] if bt is None else b
    ct = gen.pick(rng, t, t, 1, None)
    cc = stack(rng, l, c, t if ct is None else ct)
    cc = cc[:, :, 0] if ct is None else cc

    def page(x, i):
        return x if x.ndim == 2 else x[:, :, i if x.shape[2] > 1 else 0]
    e2 = [page(a, i) @ page(b, i) for i in range(t)]
    e3 = [page(a, i) @ page(b, i) @ page(cc, i) for i in range(t)]
    d2 = MatVector.r_multiply(lay(rng, a), lay(rng, b))
    pages(m, 'product', d2, e2)
    pages(m, 'product', MatVector.r_multiply(lay(rng, a), lay(rng, b), use_sparse_matrix=False), e2)
    d3 = MatVector.r_multiply(lay(rng, a), lay(rng, b), lay(rng, cc))
    pages(m, 'product-3', d3, e3)
    pages(m, 'sparse-dense', MatVector.r_multiply(lay(rng, a), lay(rng, b), use_sparse_matrix=True), e2)
    pages(m, 'sparse-dense', MatVector.r_multiply(lay(rng, a), lay(rng, b), lay(rng, cc), True), e3)
    # a scalar factor multiplies the whole page
    s = stack(rng, 1, 1, gen.pick(rng, t, 1))
    flag = bool(rng.randint(2))
    pages(m, 'scalar-product', MatVector.r_multiply(lay(rng, a), lay(rng, s), use_sparse_matrix=flag),
          [page(a, i) * page(s, i)[0, 0] for i in range(t)])
    s1 = stack(rng, 1, 1, t)
    pages(m, 'scalar-product', MatVector.r_multiply(lay(rng, s1), lay(rng, b), use_sparse_matrix=flag),
          [s1[0, 0, i] * page(b, i) for i in range(t)])
    pages(m, 'scalar-product', MatVector.r_multiply(lay(rng, a), lay(rng, b), lay(rng, s), flag),
          [page(a, i) @ page(b, i) * page(s, i)[0, 0] for i in range(t)])
    if t > 2:
        m.raises('rejected', lambda: MatVector.r_multiply(np.ones((2, 2, t)), np.ones((2, 2, t - 1))))
    m.raises('rejected', lambda: MatVector.r_multiply(np.ones((2, 2, t)), np.ones((3, 2, t))))
    # with vectors
    v = rng.standard_normal((k, t)) if rng.randint(4) else rng.randint(-3, 4, (k, t))
    ev = [a[:, :, i] @ v[:, i] for i in range(t)]
    for kw in ({}, dict(use_sparse_matrix=True), dict(use_sparse_matrix=False)):
        pages(m, 'vectors', np.asarray(MatVector.r_multiply_by_vec(lay(rng, a), lay(rng, v), **kw)), ev, opts=kw)
    m.raises('rejected', lambda: MatVector.r_multiply_by_vec(a, v[:, 0]))
    m.raises('rejected', lambda: MatVector.r_multiply_by_vec(a, np.ones((k, t, 1))))
    m.sig(a, b, cc)


def two_sided(m):
    rng = m.rng
    n, k, t = dims(rng)
    b = stack(rng, n, n, t)
    for flag in ('R', 'L'):
        a = stack(rng, n, k, t) if flag == 'R' else stack(rng, k, n, t)

        def ref(bb, aa):
            return aa.T @ bb @ aa if flag == 'R' else aa @ bb @ aa.T
        pages(m, 'two-sided', SquareMatVector.lr_multiply(lay(rng, b), lay(rng, a), flag),
              [ref(b[:, :, i], a[:, :, i]) for i in range(t)])
        pages(m, 'two-sided', SquareMatVector.lr_multiply(lay(rng, b), lay(rng, a[:, :, 0]), flag),
              [ref(b[:, :, i], a[:, :, 0]) for i in range(t)])
        m.close('two-sided', SquareMatVector.lr_multiply(b[:, :, 0].copy(), lay(rng, a[:, :, 0]), flag), ref(b[:, :, 0], a[:, :, 0]), 1e-11)
        if flag == 'R':
            pages(m, 'two-sided', SquareMatVector.lr_multiply(lay(rng, b), lay(rng, a)),
                  [ref(b[:, :, i], a[:, :, i]) for i in range(t)])
        for x in (a, a[:, :, 0]):
            m.raises('rejected', lambda: SquareMatVector.lr_multiply(b, x, 'Q'))
            m.raises('rejected', lambda: SquareMatVector.lr_multiply(b[:, :, 0], x, 'l'))
    v = rng.standard_normal((n, t)) if rng.randint(4) else rng.randint(-3, 4, (n, t))

    def flat(mech, got, exp, tol=1e-10):
        g = np.array(got, dtype=float).flatten()
        e = np.array(exp, dtype=float)
        m.check(mech, g.shape == e.shape and np.all(np.abs(g - e) <= tol * max(1., np.max(np.abs(e)))), got=got, expected=exp, b=b, v=v)
    flat('quadratic', SquareMatVector.lr_multiply_by_vec(lay(rng, b), lay(rng, v)), [v[:, i] @ b[:, :, i] @ v[:, i] for i in range(t)])
    flat('quadratic', SquareMatVector.lr_multiply_by_vec(lay(rng, b[:, :, 0]), lay(rng, v)), [v[:, i] @ b[:, :, 0] @ v[:, i] for i in range(t)])
    flat('quadratic', SquareMatVector.lr_multiply_by_vec(lay(rng, b), v[:, 0].copy()), [v[:, 0] @ b[:, :, 0] @ v[:, 0]])
    flat('quadratic', SquareMatVector.lr_multiply_by_vec(b[:, :, 0].copy(), v[:, 0].copy()), [v[:, 0] @ b[:, :, 0] @ v[:, 0]])
    d = np.stack([gen.spd(rng, n) if rng.randint(2) else gen.symm(rng, n) + 0.1 * np.triu(rng.standard_normal((n, n)), 1) for _ in range(t)], axis=2)
    if rng.randint(3) == 0:                 # badly conditioned, small and large pages
        i = rng.randint(t)
        e = np.ones(n)
        e[rng.randint(n)] = 10. ** rng.uniform(-8, 0)
        w = gen.orth(rng, n)
        x = w @ np.diag(e) @ gen.pick(rng, w, gen.orth(rng, n)).T
        for j, z in ((i, x * 10. ** rng.uniform(-9, 9)),):
            got = SquareMatVector.lr_divide_vec(z[:, :, None].copy(), v[:, j].copy())
            m.check('divide', abs(float(np.asarray(got).flatten()[0]) - v[:, j] @ np.linalg.solve(z, v[:, j])) <=
                    1e-6 * (v[:, j] @ v[:, j]) * np.linalg.norm(np.linalg.inv(z), 2), got=got, b=z, v=v[:, j])
            two = np.stack([z, np.eye(n)], axis=2)
            got = SquareMatVector.lr_divide_vec(two, np.stack([v[:, j], v[:, j]], axis=1))
            m.check('divide', abs(float(np.asarray(got).flatten()[0]) - v[:, j] @ np.linalg.solve(z, v[:, j])) <=
                    1e-6 * (v[:, j] @ v[:, j]) * np.linalg.norm(np.linalg.inv(z), 2), got=got, b=z, v=v[:, j])
    if max(np.linalg.cond(d[:, :, i]) for i in range(t)) < 1e4:
        flat('divide', SquareMatVector.lr_divide_vec(lay(rng, d), lay(rng, v)) if t > 1 else
             SquareMatVector.lr_divide_vec(lay(rng, d), v.copy()),
             [v[:, i] @ np.linalg.solve(d[:, :, i], v[:, i]) for i in range(t)], 1e-8)
        one = gen.pick(rng, v[:, 0].copy(), v[:, :1].copy())
        flat('divide', SquareMatVector.lr_divide_vec(lay(rng, d), one),
             [v[:, 0] @ np.linalg.solve(d[:, :, i], v[:, 0]) for i in range(t)], 1e-8)
        flat('divide', SquareMatVector.lr_divide_vec(d[:, :, 0].copy(), one), [v[:, 0] @ np.linalg.solve(d[:, :, 0], v[:, 0])], 1e-8)
    m.sig(b, v, d)


def function(m):
    rng = m.rng
    r, c, t = dims(rng)
    a = stack(rng, r, c, t)
    if rng.randint(6) == 0:
        a = a[:, :, 0]
    pg = [a] if a.ndim == 2 else [a[:, :, i] for i in range(t)]
    def keep(x):
        return np.sin(0.3 * x) + 0.5
    def scal(x):
        return float(np.max(x)) - 0.25
    def any_(x):
        return x @ x.T
    pages(m, 'function', MatVector.eval_func(keep, lay(rng, a), True, True), [keep(p) for p in pg], 1e-13)
    got = MatVector.eval_func(scal, lay(rng, a)) if rng.randint(2) else MatVector.eval_func(scal, lay(rng, a), True, False)
    m.close('function', got, np.array([scal(p) for p in pg]), 1e-13)
    got = MatVector.eval_func(any_, lay(rng, a), False)
    m.check('function', isinstance(got, list) and len(got) == len(pg) and
            all(np.allclose(g, any_(p), 1e-11, 1e-11) for g, p in zip(got, pg)), got=got)
    m.sig(a)


CASES = [('large_basic', gen.large(basic, 20, 70), 12, 300), ('large_square', gen.large(square, 20, 70), 12, 300), ('large_product', gen.large(product, 20, 70), 12, 300), ('large_two_sided', gen.large(two_sided, 20, 70), 12, 300),
         ('basic', basic, 300, 8000), ('square', square, 250, 7000), ('product', product, 300, 8000),
         ('two_sided', two_sided, 250, 7000), ('function', function, 150, 3000)]
