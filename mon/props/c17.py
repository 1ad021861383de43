"""C17  Matrix predicates: symmetry, definiteness, degeneracy, real part."""
import numpy as np
from ellipy.gras.la import la
from .. import gen

RULE = ('matrices of dimension 1..7 with a chosen asymmetry, smallest eigenvalue or smallest singular value below, exactly '
        'at (where the arithmetic is exact) and above tolerances 0 and 1e-10..1e-2, tall and wide ones for degeneracy, '
        'complex ones with a chosen imaginary part; distinct by content')
REQUIRED = ['symmetric', 'not-symmetric', 'pos-def', 'not-pos-def', 'semi-def', 'not-semi-def', 'degenerate',
            'not-degenerate', 'real', 'rejected']


def tol_of(rng):
    return float(gen.pick(rng, 0., 1e-10, 1e-7, 1e-4, 1e-2, 10. ** rng.uniform(-9, -2), 10. ** rng.uniform(-2, 0.5)))


def both(m, mech_t, mech_f, got, exp, **kw):
    m.check(mech_t if exp else mech_f, isinstance(got, (bool, np.bool_)) and bool(got) == exp, got=got, expected=exp, **kw)


def symmetry(m):
    rng = m.rng
    n = gen.dim(rng, 8)
    tol = tol_of(rng)
    a = gen.sym(rng.standard_normal((n, n))) if rng.randint(3) else rng.randint(-9, 10, (n, n))
    a = np.tril(a) + np.tril(a, -1).T
    both(m, 'symmetric', 'not-symmetric', la.is_mat_symm(a.copy(), tol), True, mat=a, tol=tol)
    if n > 1:
        i, j = rng.permutation(n)[:2]
        b = a.astype(float)
        f = gen.pick(rng, 0.5, 1., 1.5, 30.)
        d = f * tol if tol else gen.pick(rng, 1e-9, 1.)
        b[i, j], b[j, i] = gen.pick(rng, (d, 0.), (0., d), (-d, 0.), (0., -d))
        exp = d <= tol
        both(m, 'symmetric', 'not-symmetric', la.is_mat_symm(b.copy(), tol), exp, mat=b, tol=tol)
        both(m, 'symmetric', 'not-symmetric', la.is_mat_symm(b.T.copy(), tol), exp, mat=b.T, tol=tol)
        both(m, 'symmetric', 'not-symmetric', la.is_mat_symm(b.copy()), d == 0., mat=b, tol=0.)
        if not exp:
            m.raises('rejected', lambda: la.is_mat_pos_def(b + 100 * np.eye(n), tol), 'symm')
        c = 1e6 * b
        if d > tol > 0:      # the tolerance is absolute: large entries do not excuse a difference
            c = b.copy()
            c[np.abs(c) > 10 * d] *= 1e6
            both(m, 'symmetric', 'not-symmetric', la.is_mat_symm(c, tol), False, mat=c, tol=tol)
        # ... nor does the size of the two entries that differ
        v = float(2 ** rng.randint(4, 30)) * gen.pick(rng, 1., -1.)
        d = gen.pick(rng, 0.25, 1., 3.) * 2. ** -rng.randint(0, 18)
        tol = d * gen.pick(rng, 0.5, 0.01, 2., 16.)
        c = b.copy()
        c[i, j], c[j, i] = v + d, v
        if rng.randint(2):
            c *= np.array(abs(np.subtract.outer(np.arange(n), np.arange(n))) == abs(i - j))
        c = np.where((np.arange(n)[:, None] + np.arange(n)[None] == i + j), c, np.tril(c) + np.tril(c, -1).T)
        if c[i, j] - c[j, i] == d and np.sum(np.abs(c - c.T) > 0) == 2:
            both(m, 'symmetric', 'not-symmetric', la.is_mat_symm(c, tol), d <= tol, mat=c, tol=tol, difference=d)
    m.sig(a, tol)
    m.sample(mat=a, tol=tol)


def definite(m):
    rng = m.rng
    n = gen.dim(rng, 8)
    tol = tol_of(rng)
    exact = rng.randint(3) == 0
    low = gen.pick(rng, 0.5 * tol, 2. * tol, -0.5 * tol, -2. * tol, 1., -1., 1e-3 + 1.5 * tol)
    if exact:
        low = gen.pick(rng, tol, -tol, 0.)
        d = np.full(n, 2.)
    else:
        d = 0.5 + np.abs(low) + rng.uniform(0., 3., n) * gen.pick(rng, 1., 1., 20.)
    d[rng.randint(n)] = low
    if low > 0 and n > 1 and rng.randint(2):
        d[rng.randint(n)] = max(low, 5.)
        low = float(np.min(d))
    u = np.eye(n) if exact or tol == 0. or tol < 1e-9 else gen.orth(rng, n)
    a = gen.sym(u @ np.diag(d) @ u.T)
    if not exact and tol > 1e-8 and abs(abs(low) - tol) > 0.4 * tol and n > 1 and rng.randint(3) == 0:
        a[0, 1] += 0.1 * tol / n                     # slightly asymmetric
    both(m, 'pos-def', 'not-pos-def', la.is_mat_pos_def(a.copy(), tol), low > tol, mat=a, tol=tol, low=low)
    both(m, 'pos-def', 'not-pos-def', la.is_mat_pos_def(a.copy(), tol, False), low > tol, mat=a, tol=tol, low=low)
    both(m, 'semi-def', 'not-semi-def', la.is_mat_pos_def(a.copy(), tol, True), low >= -tol, mat=a, tol=tol, low=low)
    if n == 1:
        both(m, 'pos-def', 'not-pos-def', la.is_mat_pos_def(a.copy()), low > 0, mat=a, low=low)
        both(m, 'semi-def', 'not-semi-def', la.is_mat_pos_def(a.copy(), is_flag_sem_def_on=True), low >= 0, mat=a, low=low)
    m.sig(a, tol)


def degeneracy(m):
    rng = m.rng
    r, c = gen.dim(rng, 7), gen.dim(rng, 7)
    k = min(r, c)
    tol = float(10. ** rng.uniform(-8, -2))
    s = rng.uniform(0.5, 3., k)
    low = gen.pick(rng, 0., 0.5 * tol, 2. * tol, 0.3)
    s[rng.randint(k)] = low
    a = gen.orth(rng, r)[:, :k] @ np.diag(s) @ gen.orth(rng, c)[:, :k].T
    both(m, 'not-degenerate', 'degenerate', la.is_mat_not_deg(a.copy(), tol), low >= tol, mat=a, tol=tol, low=low)
    both(m, 'not-degenerate', 'degenerate', la.is_mat_not_deg(-a, tol), low >= tol, mat=-a, tol=tol, low=low)
    both(m, 'not-degenerate', 'degenerate', la.is_mat_not_deg(a.copy()), True, mat=a, tol=0.)
    b = np.diag([3., tol])
    both(m, 'not-degenerate', 'degenerate', la.is_mat_not_deg(b, tol * 0.999), True, mat=b, tol=tol)
    m.sig(a, tol)


def real(m):
    rng = m.rng
    nd = rng.randint(0, 3)
    shp = tuple(rng.randint(1, 5, nd))
    re = rng.standard_normal(shp) * 10. ** rng.uniform(-3, 3)
    tol = float(10. ** rng.uniform(-9, -2))
    size = int(np.prod(shp)) if shp else 1
    big = gen.pick(rng, 2., 50., 1e4) * tol
    small = 0.5 * tol / size
    for imax, exp in ((0., True), (small, True), (big, False), (-small, True), (-big, False)):
        im = np.zeros(shp)
        if shp:
            im[tuple(rng.randint(k) for k in shp)] = imax
            if exp:
                im = im + imax * rng.uniform(0, 1, shp)
                im = np.clip(im, -abs(small), abs(small))
            z = re + 1j * im
        else:
            z = complex(float(re), imax)
            z = z if rng.randint(2) else np.complex128(z)
        if exp:
            got = la.try_treat_as_real(z, tol)
            m.check('real', np.shape(got) == shp and np.all(np.isreal(got)) and np.array_equal(np.real(got), np.real(z)),
                    got=got, value=z, tol=tol)
        else:
            m.raises('rejected', lambda: la.try_treat_as_real(z, tol), value=z, tol=tol)
    if shp:
        got = la.try_treat_as_real(re.copy(), tol)
        m.check('real', np.array_equal(got, re), got=got)
        m.raises('rejected', lambda: la.try_treat_as_real(re + 1e-9j))
    for v in (True, 3, 2.5, np.float64(1.5), np.int64(4)):
        m.check('real', la.try_treat_as_real(v) == v, value=v)
    for t in (0., -tol, 'a', np.array([tol]), None):
        m.raises('rejected', lambda: la.try_treat_as_real(re, t), tol=t)
    m.sig(re, tol)


def rejected(m):
    rng = m.rng
    n = gen.dim(rng, 6)
    sq = gen.spd(rng, n)
    for f in (la.is_mat_symm, la.is_mat_pos_def):
        m.raises('rejected', lambda: f(np.ones((n, n + 1)), 1e-6))
        m.raises('rejected', lambda: f(np.ones((n + 1, n))))
        m.raises('rejected', lambda: f(np.ones(n), 1e-6))
        m.raises('rejected', lambda: f(np.ones((n, n, 1)), 1e-6))
        m.raises('rejected', lambda: f(sq, -1e-6))
    m.raises('rejected', lambda: la.is_mat_not_deg(sq, -1e-6))
    m.raises('rejected', lambda: la.is_mat_not_deg(sq, -1.))
    m.sig(sq)


CASES = [('large_symmetry', gen.large(symmetry, 20, 70), 12, 300), ('large_definite', gen.large(definite, 20, 70), 12, 300), ('large_degeneracy', gen.large(degeneracy, 20, 70), 12, 300),
         ('symmetry', symmetry, 500, 15000), ('definite', definite, 700, 20000), ('degeneracy', degeneracy, 400, 12000),
         ('real', real, 200, 6000), ('rejected', rejected, 12, 60)]
