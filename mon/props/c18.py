"""C18  Matrix roots, regularisations and orthonormal bases."""
import numpy as np
from ellipy.gras.la import la
from ellipy.gras.gen.gen import sqrt_pos
from .. import gen

RULE = ('symmetric matrices of dimension 1..7 with chosen spectra (repeated, zero, slightly negative, clearly negative), '
        'rectangular matrices with chosen singular values or dependent columns, scalars and arrays around -tolerance; '
        'expectations built from the chosen spectra; distinct by content')
REQUIRED = ['root', 'root-rejected', 'regularised', 'singular-regularised', 'tol-rejected', 'basis-orthogonal',
            'basis-nested', 'columns', 'clamped-root', 'clamped-rejected']


def spectrum(rng, n, lo, hi):
    d = rng.uniform(lo, hi, n)
    if n > 1 and rng.randint(3) == 0:
        d[1] = d[0]
    if rng.randint(4) == 0:
        d[:] = d[0]
    return d


def root(m):
    rng = m.rng
    n = gen.dim(rng, 8)
    u = gen.pick(rng, np.eye(n), gen.orth(rng, n))
    d = spectrum(rng, n, 0., 4.) * 10. ** rng.uniform(-3, 3)
    tol = float(gen.pick(rng, 1e-6, 1e-8, 10. ** rng.uniform(-7, -3)))
    k = rng.randint(5)
    if k == 0:
        d[rng.randint(n)] = 0.
    if k == 4:                                       # all far below the tolerance
        d = spectrum(rng, n, 0.1, 1.) * tol * 10. ** rng.uniform(-6, 0)
    scale = max(1., np.max(d))
    a = gen.sym(u @ np.diag(d) @ u.T)
    if k == 1 and tol > 1e-11 * scale:
        if rng.randint(2):
            tol = 1e-4 * scale
            d = d + 0.1 * scale
            scale = max(1., np.max(d))
        d[rng.randint(n)] = -0.5 * tol
        a = gen.sym(u @ np.diag(d) @ u.T)
    if k == 2 and n > 1 and tol < 1e-4:
        a[0, 1] += 0.3 * tol
    if np.min(np.linalg.eigvalsh(gen.sym(a))) < -0.8 * tol:
        m.trivial = True
        return
    r = la.sqrtm_pos(a.copy(), tol)
    m.check('root', np.shape(r) == (n, n) and np.max(np.abs(r - r.T)) <= 1e-10 * np.sqrt(scale) and
            np.min(np.linalg.eigvalsh(gen.sym(r))) >= -1e-7 * np.sqrt(scale) and
            np.max(np.abs(r @ r - a)) <= 1e-9 * scale + 2 * tol * n, got=r, mat=a, tol=tol)
    if k == 4:
        m.check('root', np.max(np.abs(r @ r - a)) <= 1e-9 * np.max(d), got=r, mat=a, tol=tol)
    if k == 1 and tol > 1e-11 * scale and np.min(d) < 0. and np.sum(d < 1e-3 * scale) == 1:
        w = u[:, np.argmin(d)]                       # what is cut off to zero does not come back
        m.check('root', abs(w @ r @ w) <= 1e-3 * np.sqrt(tol) + 1e-7 * np.sqrt(scale), got=r, mat=a, tol=tol)
    if np.min(d) > 1e-6 * scale:
        exp = u @ np.diag(np.sqrt(d)) @ u.T
        m.check('root', np.max(np.abs(r - exp)) <= 1e-8 * np.sqrt(scale) + tol * 1e3 / np.sqrt(scale), got=r, expected=exp, mat=a)
        g = gen.sym(u @ np.diag(d) @ u.T)
        r = la.sqrtm_pos(g)
        m.check('root', np.max(np.abs(r - exp)) <= 1e-8 * np.sqrt(scale), got=r, expected=exp, mat=a)
    d = np.abs(d)
    d[rng.randint(n)] = -gen.pick(rng, 3. * tol, 1., 1e-2 + tol)
    if tol > 1e-11 * scale:
        bad = gen.sym(u @ np.diag(d) @ u.T)
        m.raises('root-rejected', lambda: la.sqrtm_pos(bad, tol), mat=bad, tol=tol)
    m.raises('root-rejected', lambda: la.sqrtm_pos(np.eye(n + 1) + 5 * tol * np.eye(n + 1, k=1), tol))
    m.raises('root-rejected', lambda: la.sqrtm_pos(np.eye(n), -1e-6))
    m.raises('root-rejected', lambda: la.sqrtm_pos(np.ones((n, n + 1)), tol))
    m.sig(a, tol)
    m.sample(mat=a, tol=tol)


def regular(m):
    rng = m.rng
    n = gen.dim(rng, 8)
    u = gen.pick(rng, np.eye(n), gen.orth(rng, n))
    tol = float(gen.pick(rng, 1e-6, 1e-3, 0.5, 10. ** rng.uniform(-7, 0)))
    d = spectrum(rng, n, -1., 3.) * gen.pick(rng, 1., tol * 2)
    if rng.randint(3) == 0:
        d[rng.randint(n)] = 0.
    if rng.randint(3) == 0:                          # just below or above the tolerance
        d[rng.randint(n)] = tol * (1. - rng.choice([-1., 1.]) * 10. ** rng.uniform(-6, -1))
    a = gen.sym(u @ np.diag(d) @ u.T)
    got = la.reg_pos_def_mat(a.copy(), gen.pick(rng, tol, np.float64(tol)))
    exp = u @ np.diag(np.maximum(d, tol)) @ u.T
    m.close('regularised', got, exp, 1e-11, mat=a, reg_tol=tol)
    m.check('regularised', np.array_equal(got, got.T), got=got)
    again = la.reg_pos_def_mat(got, tol)
    m.close('regularised', again, exp, 1e-11, mat=got, reg_tol=tol)
    # the general one, any shape
    r, c = gen.dim(rng, 7), gen.dim(rng, 7)
    k = min(r, c)
    p, q = gen.orth(rng, r)[:, :k], gen.orth(rng, c)[:, :k]
    s = spectrum(rng, k, 0., 3.) * gen.pick(rng, 1., tol * 2)
    if rng.randint(3) == 0:
        s[rng.randint(k)] = tol * (1. - rng.choice([-1., 1.]) * 10. ** rng.uniform(-6, -1))
    if rng.randint(3) == 0 and k == r == c:
        s[rng.randint(k)] = 2. * tol      # a zero one leaves the direction of a singular vector open, checked below
    b = p @ np.diag(s) @ q.T
    got = la.reg_mat(b.copy(), tol)
    if np.min(s) > 1e-3 * tol:
        m.close('singular-regularised', got, p @ np.diag(np.maximum(s, tol)) @ q.T, 1e-9, mat=b, reg_tol=tol)
    m.need('singular-regularised', np.shape(got) == (r, c) and
           np.max(np.abs(np.sort(np.linalg.svd(got, compute_uv=False)) - np.sort(np.maximum(s, tol)))) <= 1e-10 * max(1., tol),
           got=got, mat=b, reg_tol=tol)
    z = np.zeros((r, c))
    m.check('singular-regularised', np.allclose(np.linalg.svd(la.reg_mat(z, tol), compute_uv=False), tol, 1e-9), reg_tol=tol)
    for bad in (0., -tol, np.array([tol]), 'a', None):
        m.raises('tol-rejected', lambda: la.reg_pos_def_mat(a, bad), bad=bad)
        m.raises('tol-rejected', lambda: la.reg_mat(b, bad), bad=bad)
    m.raises('tol-rejected', lambda: la.reg_pos_def_mat(a, tol + 1j))
    m.raises('tol-rejected', lambda: la.reg_mat(b, tol + 1j))
    asym = np.eye(n + 1)
    asym[0, n] = 0.1
    m.raises('tol-rejected', lambda: la.reg_pos_def_mat(asym, tol))
    m.sig(a, b, tol)


def basis(m):
    rng = m.rng
    r, c = gen.dim(rng, 8), gen.dim(rng, 8)
    a = rng.standard_normal((r, c)) * (10. ** rng.uniform(-2, 2) if rng.randint(4) else 10. ** rng.uniform(-100, 100))
    k = rng.randint(5)
    if k == 0 and c > 1:
        a[:, rng.randint(1, c)] = a[:, 0] * gen.pick(rng, 1., -2.)
    elif k == 1:
        a = rng.randint(-3, 4, (r, c))
    elif k == 2:
        a[:, rng.randint(c)] = 0.
    elif k == 3:
        a = -np.eye(r, c)
    o = la.mat_orth(a.copy())
    m.need('basis-orthogonal', np.shape(o) == (r, r) and np.max(np.abs(o.T @ o - np.eye(r))) <= 1e-10, got=o, mat=a)
    t = o.T @ a
    scale = float(np.max(np.abs(a)))
    m.check('basis-nested', np.max(np.abs(np.tril(t, -1))) <= 1e-10 * scale and
            np.all(np.diagonal(t) >= -1e-10 * scale), got=o, coefficients=t, mat=a)
    if r >= c:
        col = la.math_orth_col(a.copy())
        m.check('columns', np.shape(col) == (r, c) and np.max(np.abs(col.T @ col - np.eye(c))) <= 1e-10, got=col, mat=a)
        t = col.T @ a
        m.check('columns', np.max(np.abs(np.tril(t, -1))) <= 1e-10 * scale and np.all(np.diagonal(t) >= -1e-10 * scale) and
                np.max(np.abs(col @ t - a)) <= 1e-9 * scale, got=col, mat=a)
    m.sig(a)


def clamped(m):
    rng = m.rng
    tol = float(gen.pick(rng, 0., 1e-9, 1e-4, 0.25))
    for x in (0., 4., float(rng.uniform(0, 9)), -0.5 * tol, -tol, 3, 0, np.float64(2.25), 1e-300, np.int64(9)):
        got = sqrt_pos(x, tol)
        m.check('clamped-root', np.ndim(got) == 0 and abs(float(got) - np.sqrt(max(0., x))) <= 1e-15 * max(1., x) , got=got, value=x, tol=tol)
    for x in (-1.01 * tol - 1e-12, -1., -5):
        m.raises('clamped-rejected', lambda: sqrt_pos(x, tol), value=x, tol=tol)
    shp = tuple(rng.randint(1, 5, rng.randint(1, 4)))
    a = rng.uniform(0., 5., shp)
    if rng.randint(3) == 0:
        a = np.floor(a).astype(int)
    else:
        a[rng.uniform(size=shp) < 0.3] = -0.7 * tol
        a[rng.uniform(size=shp) < 0.1] = -tol
        small = rng.uniform(size=shp) < 0.2
        a[small] = (tol or 1e-6) * 10. ** rng.uniform(-12, 0, int(np.sum(small)))
    got = sqrt_pos(a.copy(), tol)
    m.close('clamped-root', got, np.sqrt(np.maximum(a, 0.)), 1e-14, value=a, abs_tol=tol)
    m.check('clamped-root', np.all(np.abs(got - np.sqrt(np.maximum(a, 0.))) <= 1e-14 * np.sqrt(np.maximum(a, 0.))), got=got, value=a, tol=tol)
    b = a.astype(float)
    b[tuple(rng.randint(k) for k in shp)] = -2. * tol - 1e-9
    m.raises('clamped-rejected', lambda: sqrt_pos(b, tol), value=b, tol=tol)
    b = np.abs(b) * gen.pick(rng, 1., 1e2, 1e6)         # the tolerance is absolute, whatever the other values are
    b[tuple(rng.randint(k) for k in shp)] = -3. * tol - 1e-9
    m.raises('clamped-rejected', lambda: sqrt_pos(b, tol), value=b, tol=tol)
    m.raises('clamped-rejected', lambda: sqrt_pos(1., -1e-3))
    m.raises('clamped-rejected', lambda: sqrt_pos(np.ones(2), -1e-3))
    m.sig(a, tol)


CASES = [('large_root', gen.large(root, 20, 70), 12, 300), ('large_regular', gen.large(regular, 20, 70), 12, 300), ('large_basis', gen.large(basis, 20, 70), 12, 300),
         ('root', root, 500, 15000), ('regular', regular, 400, 12000), ('basis', basis, 400, 12000),
         ('clamped', clamped, 200, 5000)]
