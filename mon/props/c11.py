"""C11  Centred containment test and simultaneous diagonalisation."""
import logging
import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.core import ell_sim_diag
from ellipy.elltool.conf.properties.Properties import Properties
from .. import gen

RULE = ('pairs of ellipsoids of dimension 1..6 whose largest generalised eigenvalue is chosen (0.05..0.999, exactly 1, '
        '1.001..20), full or degenerate (second inside or sticking out of the range of the first), any centres and '
        'tolerances; pairs of matrices for the diagonaliser; distinct by content')
REQUIRED = ['contained', 'not-contained', 'degenerate-contained', 'degenerate-sticks-out', 'same-shape', 'diag:identity',
            'diag:diagonal', 'rejected']


def ask(m, a, b):
    arg = gen.pick(m.rng, b, [b], np.array([b]), np.array([[b]]))
    return a.is_bigger(arg)


def full(m):
    rng = m.rng
    n = gen.dim(rng, 7)
    q1 = gen.spd(rng, n, 0.02, 5.) * 10. ** rng.uniform(-1, 1)
    c = np.linalg.cholesky(q1) @ gen.orth(rng, n)
    lam = gen.pick(rng, rng.uniform(0.05, 0.99), 0.999, 1.001, rng.uniform(1.01, 20.), 1.)
    d = lam * rng.uniform(0., 1., n)
    if rng.randint(3) == 0:
        d[:] = lam
    d[rng.randint(n)] = lam
    if n > 1 and rng.randint(3) == 0:
        i = rng.randint(n)
        if np.max(np.delete(d, i)) == lam:
            d[i] = 0.
    q2 = q1.copy() if lam == 1. and rng.randint(2) else gen.sym(c @ np.diag(d) @ c.T)
    a = Ellipsoid(gen.center(rng, n), q1, **gen.settings(rng))
    b = Ellipsoid(gen.center(rng, n), q2, **gen.settings(rng))
    res = ask(m, a, b)
    mech = 'contained' if lam < 1 else 'same-shape' if lam == 1. else 'not-contained'
    m.check(mech, isinstance(res, (bool, np.bool_)) and bool(res) == (lam <= 1.), lam=lam, first=q1, second=q2, got=res,
            centers=(a.parameters()[0], b.parameters()[0]))
    m.sig(q1, q2)
    m.sample(first=q1, second=q2, largest=lam)


def degenerate(m):
    rng = m.rng
    n = gen.dim(rng, 7, lo=2)
    r = rng.randint(1, n)
    v = gen.orth(rng, n) if rng.randint(3) else np.eye(n)[:, rng.permutation(n)]
    q1r = gen.spd(rng, r, 0.02, 5.)
    q1 = gen.sym(v[:, :r] @ q1r @ v[:, :r].T)
    kw1, kw2 = gen.settings(rng), gen.settings(rng)
    if rng.randint(4) == 0:                 # nonnegative definite within its own tolerance
        kw1['abs_tol'] = float(10. ** rng.uniform(-6, -4))
        q1 = gen.sym(q1 - v[:, r:] @ np.diag(kw1['abs_tol'] * rng.uniform(0.05, 0.8, n - r)) @ v[:, r:].T)
    a = Ellipsoid(gen.center(rng, n), q1, **kw1)
    lam = gen.pick(rng, rng.uniform(0.05, 0.99), 0.99, 1.01, rng.uniform(1.01, 20.))
    if rng.randint(2):
        c = np.linalg.cholesky(q1r) @ gen.orth(rng, r)
        d = lam * rng.uniform(0., 1., r)
        d[rng.randint(r)] = lam
        q2 = gen.sym(v[:, :r] @ c @ np.diag(d) @ c.T @ v[:, :r].T)
        res = ask(m, a, Ellipsoid(gen.center(rng, n), q2, **kw2))
        m.check('degenerate-contained', bool(res) == (lam <= 1.), lam=lam, first=q1, second=q2, got=res, tols=(kw1, kw2))
    else:
        # sticks out of the range of the first; the rank may be smaller, equal or larger
        k = rng.randint(1, n + 1)
        w = v[:, rng.permutation(n)[:k]]
        if np.max(np.abs(v[:, r:].T @ w)) < 0.5:
            w = np.hstack((w[:, 1:], v[:, [n - 1]]))
        q2 = gen.sym(w @ (gen.spd(rng, w.shape[1]) * 10. ** rng.uniform(-2, 0)) @ w.T)
        res = ask(m, a, Ellipsoid(gen.center(rng, n), q2, **kw2))
        m.check('degenerate-sticks-out', not res, first=q1, second=q2, got=res, tols=(kw1, kw2))
    m.sig(q1, q2)
    # a point is inside everything; a degenerate second inside a full first
    p = Ellipsoid(gen.center(rng, n), np.zeros((n, n)))
    m.check('degenerate-contained', bool(ask(m, a, p)), first=q1, second='point')
    if np.linalg.norm(q1) > 1e-3:
        m.check('degenerate-sticks-out', not ask(m, p, a), first='point', second=q1)
    big = Ellipsoid(gen.center(rng, n), 1.1 * np.max(np.linalg.eigvalsh(q1)) * np.eye(n), **kw2)
    small = Ellipsoid(gen.center(rng, n), 0.9 * np.max(np.linalg.eigvalsh(q1)) * np.eye(n), **kw2)
    m.check('degenerate-contained', bool(ask(m, big, a)), first='ball', second=q1)
    m.check('degenerate-sticks-out', not ask(m, small, a), first='ball', second=q1)


def tolerance(m):
    """Only the absolute tolerance of the first ellipsoid widens it; large relative tolerances do not."""
    rng = m.rng
    n = gen.dim(rng, 6)
    q1 = gen.spd(rng, n, 0.3, 3.)
    c = np.linalg.cholesky(q1) @ gen.orth(rng, n)
    at = float(gen.pick(rng, 1e-9, 1e-7, 1e-5, 1e-2))
    lam = 1. + gen.pick(rng, -0.5, 0.3, 3., 30.) * at
    if at < 1e-6:
        lam = gen.pick(rng, 0.999, 1.001, 1.004, 1.03)
    d = rng.uniform(0.1, 0.9, n)
    d[rng.randint(n)] = lam
    q2 = gen.sym(c @ np.diag(d) @ c.T)
    kw = dict(rel_tol=float(10. ** rng.uniform(-6, -0.5)))
    a = Ellipsoid(gen.center(rng, n), q1, abs_tol=at, **kw)
    b = Ellipsoid(gen.center(rng, n), q2, abs_tol=float(10. ** rng.uniform(-9, -2)), **gen.pick(rng, kw, {}))
    res = ask(m, a, b)
    m.check('contained' if lam < 1 + at else 'not-contained', bool(res) == (lam < 1 + at), lam=lam, abs_tol=at, rel_tol=kw, first=q1,
            second=q2, got=res)
    # a degenerate first, the second out of its range by a few tolerances only
    if n > 1:
        v = gen.orth(rng, n)
        t2 = float(10. ** rng.uniform(-9, -6))
        q = gen.sym(v[:, 1:] @ np.diag(rng.uniform(0.5, 2., n - 1)) @ v[:, 1:].T)
        out = max(at, t2) * gen.pick(rng, 2., 5., 100.)
        k = gen.pick(rng, 0., 0.3)
        p = gen.sym(k * q + out * np.outer(v[:, 0], v[:, 0]))
        res = ask(m, Ellipsoid(gen.center(rng, n), q, abs_tol=at), Ellipsoid(gen.center(rng, n), p, abs_tol=t2))
        m.check('degenerate-sticks-out', not res, first=q, second=p, abs_tol=(at, t2), out=out)
    m.sig(q1, q2, at)


def verbose(m):
    """The same answers with the progress messages on."""
    rng = m.rng
    was = logging.root.manager.disable
    logging.disable(logging.CRITICAL)
    Properties.set_is_verbose(True)
    try:
        full(m)
        degenerate(m)
    finally:
        Properties.set_is_verbose(False)
        logging.disable(was)


def diag(m):
    rng = m.rng
    n = gen.dim(rng, 8)
    a = gen.spd(rng, n) * 10. ** rng.uniform(-2, 2)
    b = gen.pick(rng, gen.spd, gen.psd)(rng, n) * 10. ** rng.uniform(-1, 1)
    tol = gen.pick(rng, 1e-6, 1e-7, 1e-9)
    if rng.randint(4) == 0:
        b = 2. * a
    if rng.randint(4) == 0:
        e = 0.2 * tol * rng.uniform(-1, 1, (n, n))
        a = a + e - e.T
    t = ell_sim_diag(a.copy(), b.copy(), tol)
    m.need('diag:identity', np.shape(t) == (n, n))
    ta, tb = t @ a @ t.T, t @ b @ t.T
    k = np.max(np.linalg.norm(t, 2)) ** 2
    m.check('diag:identity', np.max(np.abs(ta - np.eye(n))) <= 1e-9 * (1 + k * np.linalg.norm(a)) + 2 * tol * k * max(1., n / 5), a=a, b=b, got=ta)
    m.check('diag:diagonal', np.max(np.abs(tb - np.diag(np.diag(tb)))) <= 1e-8 * (1 + k * np.linalg.norm(b)), a=a, b=b, got=tb)
    m.check('diag:eigenvalues', np.max(np.abs(np.sort(np.diag(tb)) - np.sort(np.linalg.eigvals(np.linalg.solve(gen.sym(a), b)).real)))
            <= (1e-6 + 20 * n * tol * k) * (1 + k * np.linalg.norm(b)), a=a, b=b, got=tb)
    m.sig(a, b)


def rejected(m):
    rng = m.rng
    n = gen.dim(rng, 6)
    tol = gen.pick(rng, 1e-6, 1e-8)
    a, b = gen.spd(rng, n), gen.spd(rng, n)
    m.raises('rejected', lambda: ell_sim_diag(gen.psd(rng, n), b, tol))
    m.raises('rejected', lambda: ell_sim_diag(-a, b, tol))
    asym = np.zeros((n + 1, n + 1))
    asym[0, n] = 10 * tol
    m.raises('rejected', lambda: ell_sim_diag(gen.spd(rng, n + 1) + asym, gen.spd(rng, n + 1), tol))
    m.raises('rejected', lambda: ell_sim_diag(gen.spd(rng, n + 1), gen.spd(rng, n + 1) + asym, tol))
    m.raises('rejected', lambda: ell_sim_diag(a, gen.spd(rng, n + 1), tol))
    m.raises('rejected', lambda: ell_sim_diag(gen.spd(rng, n + 1), b, tol))
    m.raises('rejected', lambda: ell_sim_diag(np.ones((n, n + 1)), b, tol))
    m.raises('rejected', lambda: ell_sim_diag(np.array([['a']]), b, tol))
    m.raises('rejected', lambda: ell_sim_diag(a, np.array([['a']]), tol))
    e = Ellipsoid(gen.center(rng, n), a)
    other = Ellipsoid(gen.spd(rng, n + rng.randint(1, 3)))
    m.raises('rejected', lambda: e.is_bigger(other))
    m.raises('rejected', lambda: other.is_bigger(e))
    m.raises('rejected', lambda: other.is_bigger(Ellipsoid(np.zeros((n, n)))))
    m.raises('rejected', lambda: e.is_bigger([e, e]))
    m.raises('rejected', lambda: e.is_bigger(3))
    m.sig(m.index)


CASES = [('large_full', gen.large(full, 20, 70), 12, 300), ('large_degenerate', gen.large(degenerate, 20, 70), 12, 300), ('large_diag', gen.large(diag, 20, 70), 12, 300),
         ('full', full, 500, 15000), ('degenerate', degenerate, 300, 8000), ('tolerance', tolerance, 200, 5000), ('diag', diag, 300, 8000),
         ('verbose', verbose, 30, 400), ('rejected', rejected, 15, 100)]
