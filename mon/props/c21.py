"""C21  Eigen-factored products equal direct products."""
import numpy as np
from ellipy.gras.gen.gen import SymmetricMatVector
from .. import gen
from .c20 import lay, pages

RULE = ('stacks of 1..5 symmetric matrices of dimension 1..6 (definite, indefinite, repeated eigenvalues, exactly diagonal, '
        'singular where no inverse is needed) with matrices, stacks and vectors of any layout; direct products page by page; '
        'distinct by content')
REQUIRED = ['two-sided', 'vectors', 'quadratic', 'inverse-quadratic', 'rejected', 'shape']


def sym_stack(rng, n, t, inv=False):
    out = []
    for _ in range(t):
        k = rng.randint(5)
        if k == 0 and not inv:
            out.append(gen.psd(rng, n))
        elif k == 1:
            out.append(float(rng.choice([-2., 1.5])) * np.eye(n))
        elif k == 2:
            out.append(np.diag(rng.permutation(np.arange(1., n + 1.)) * rng.choice([-1., 1.], n)))
        elif k == 3:
            out.append(gen.symm(rng, n))
        else:
            out.append(gen.spd(rng, n))
    return np.stack(out, axis=2)


def case(m):
    rng = m.rng
    n, k, t = gen.dim(rng, 7), gen.dim(rng, 6), gen.many(rng, 6)
    b = sym_stack(rng, n, t)
    S = SymmetricMatVector
    for flag in ('R', 'L'):
        a = rng.standard_normal((n, k, t) if flag == 'R' else (k, n, t))

        def ref(bb, aa):
            return aa.T @ bb @ aa if flag == 'R' else aa @ bb @ aa.T
        pages(m, 'two-sided', S.lr_svd_multiply(lay(rng, b), lay(rng, a), flag), [ref(b[:, :, i], a[:, :, i]) for i in range(t)])
        if k > 1 and n > 1:
            pages(m, 'two-sided', S.lr_svd_multiply(lay(rng, b), lay(rng, a[:, :, 0]), flag), [ref(b[:, :, i], a[:, :, 0]) for i in range(t)])
        if flag == 'R':
            pages(m, 'two-sided', S.lr_svd_multiply(lay(rng, b), lay(rng, a)), [ref(b[:, :, i], a[:, :, i]) for i in range(t)])
        m.raises('rejected', lambda: S.lr_svd_multiply(b, a, 'Q'))
    v = rng.standard_normal((n, t)) if rng.randint(4) else rng.randint(-3, 4, (n, t))
    keep = v.copy()
    arg = lay(rng, v)
    pages(m, 'vectors', S.r_svd_multiply_by_vec(lay(rng, b), arg), [b[:, :, i] @ v[:, i] for i in range(t)])

    def flat(mech, got, exp, tol=1e-9):
        g, e = np.array(got, dtype=float).flatten(), np.array(exp, dtype=float)
        m.check(mech, g.shape == e.shape and np.all(np.abs(g - e) <= tol * max(1., np.max(np.abs(e)))), got=got, expected=exp, b=b, v=v)
    flat('quadratic', S.lr_svd_multiply_by_vec(lay(rng, b), arg), [v[:, i] @ b[:, :, i] @ v[:, i] for i in range(t)])
    d = sym_stack(rng, n, t, True)
    flat('inverse-quadratic', S.lr_svd_divide_vec(lay(rng, d), arg), [v[:, i] @ np.linalg.solve(d[:, :, i], v[:, i]) for i in range(t)])
    i = rng.randint(t)                      # badly conditioned, small and large pages
    e = np.ones(n) * rng.choice([-1., 1.], n)
    e[rng.randint(n)] *= 10. ** rng.uniform(-8, 0)
    u = gen.orth(rng, n)
    e = e * 10. ** rng.uniform(-9, 9)
    d = d.copy()
    d[:, :, i] = gen.sym(u @ np.diag(e) @ u.T)
    got = np.array(S.lr_svd_divide_vec(lay(rng, d), lay(rng, v)), dtype=float).flatten()
    x = u.T @ v[:, i]
    m.check('inverse-quadratic', abs(got[i] - np.sum(x * x / e)) <= 1e-6 * np.sum(x * x) / np.min(np.abs(e)), got=got[i],
            expected=np.sum(x * x / e), b=d[:, :, i], v=v[:, i])
    got = np.array(S.r_svd_multiply_by_vec(lay(rng, d), lay(rng, v)), dtype=float)
    m.check('vectors', np.max(np.abs(got[:, i] - d[:, :, i] @ v[:, i])) <= 1e-10 * np.max(np.abs(e)) * np.linalg.norm(v[:, i]), b=d[:, :, i], v=v[:, i])
    m.check('vectors-intact', np.shape(arg) == keep.shape and np.array_equal(arg, keep), got=arg, expected=keep)
    m.raises('rejected', lambda: S.r_svd_multiply_by_vec(b, np.ones((n, t, 1))))
    m.raises('rejected', lambda: S.r_svd_multiply_by_vec(b, np.ones(n)))
    m.sig(b, v, d)
    m.sample(b=b, v=v)


CASES = [('large_case', gen.large(case, 20, 70), 12, 300),
         ('case', case, 500, 15000)]
