"""C16  Orthogonal translations rotate the source onto the destination."""
import numpy as np
from ellipy.gras.la import la
from ellipy.elltool.core.core import ell_valign
from .. import gen

RULE = ('pairs of non-zero vectors of dimension 1..7 (general, orthogonal, parallel, opposite, nearly parallel and nearly '
        'opposite down to 1e-9, coordinate vectors, lengths 1e-13..1e13), flat or as columns, for every builder; optimality of '
        'the max variants against the closed-form bound and against random competitors; distinct by content')
REQUIRED = ['orthogonal', 'maps', 'max-trace', 'max-direction', 'zero-rejected', 'many-vectors']


def vectors(rng, n):
    s = gen.nzvec(rng, n)
    k = rng.randint(8)
    if k == 0:
        d = s * gen.pick(rng, 1., 0.3, 4.)
    elif k == 1:
        d = -s * gen.pick(rng, 1., 0.3, 4.)
    elif k in (2, 3):
        d = (1. if k == 2 else -1.) * s + 10. ** rng.uniform(-9, -3) * rng.standard_normal(n) * np.linalg.norm(s)
    elif k == 4 and n > 1:
        w = rng.standard_normal(n)
        d = w - (w @ s) / (s @ s) * s
        if np.linalg.norm(d) < 1e-3:
            d = gen.nzvec(rng, n)
    elif k == 5:
        i, j = rng.randint(n), rng.randint(n)
        s, d = np.eye(n)[i] * rng.choice([-1., 1.]), np.eye(n)[j] * rng.choice([-1., 1.])
    elif k == 6:
        s, d = rng.randint(-3, 4, n).astype(float), rng.randint(-3, 4, n).astype(float)
        s[0] = s[0] or 1.
        d[-1] = d[-1] or -1.
    else:
        d = gen.nzvec(rng, n)
    if rng.randint(4) == 0:
        s, d = s * 10. ** rng.uniform(-12, 12), d * 10. ** rng.uniform(-12, 12)
    return s, d


def form(rng, a, b):
    return (a.reshape(-1, 1), b.reshape(-1, 1)) if rng.randint(2) else (a.copy(), b.copy())


def judge(m, name, o, s, d, tol=1.2e-7):
    n = s.size
    if not m.check('orthogonal', np.shape(o) == (n, n) and np.max(np.abs(o.T @ o - np.eye(n))) <= 1e-6, builder=name, got=o,
                   src=s, dst=d):
        return False
    got = o @ s
    return m.check('maps', np.max(np.abs(got / np.linalg.norm(s) - d / np.linalg.norm(d))) <= tol, builder=name, got=got,
                   src=s, dst=d)


def basic(m):
    rng = m.rng
    n = gen.dim(rng, 8)
    s, d = vectors(rng, n)
    for name in ('orth_transl', 'orth_transl_haus', 'orth_transl_qr'):
        a, b = form(rng, s, d)
        judge(m, name, getattr(la, name)(a, b), s, d)
    a, b = gen.vec_form(rng, d), gen.vec_form(rng, s)
    judge(m, 'ell_valign', ell_valign(a, b), s, d)
    m.sig(s, d)
    m.sample(src=s, dst=d)


def max_tr(m):
    rng = m.rng
    n = gen.dim(rng, 7)
    s, d = vectors(rng, n)
    k = rng.randint(4)
    mat = gen.spd(rng, n) if k == 0 else gen.psd(rng, n) if k == 1 else rng.standard_normal((n, n))
    if k == 3:
        mat = gen.symm(rng, n)
    o = la.orth_transl_max_tr(s.copy(), d.copy(), mat.copy())
    if not judge(m, 'orth_transl_max_tr', o, s, d, 2.5e-7):
        return
    su, du = s / np.linalg.norm(s), d / np.linalg.norm(d)
    ps, pd = np.eye(n) - np.outer(su, su), np.eye(n) - np.outer(du, du)
    best = float(su @ mat @ du) + float(np.sum(np.linalg.svd(ps @ mat @ pd, compute_uv=False)))
    m.check('max-trace', abs(float(np.trace(o @ mat)) - best) <= 1e-6 * (1 + np.linalg.norm(mat)), got=np.trace(o @ mat), best=best,
            src=s, dst=d, mat=mat)
    m.sig(s, d, mat)


def max_dir(m):
    rng = m.rng
    n = gen.dim(rng, 7)
    s, d = vectors(rng, n)
    sm, dm = vectors(rng, n)
    k = rng.randint(5)
    if k == 0:
        sm = s * gen.pick(rng, 2., -1.)
    elif k == 1:
        dm = d * gen.pick(rng, 0.5, -3.)
    o = la.orth_transl_max_dir(s.copy(), d.copy(), sm.copy(), dm.copy())
    if not judge(m, 'orth_transl_max_dir', o, s, d, 2.5e-7):
        return
    su, du = s / np.linalg.norm(s), d / np.linalg.norm(d)
    best = float(su @ sm) * float(du @ dm) + np.linalg.norm(sm - (su @ sm) * su) * np.linalg.norm(dm - (du @ dm) * du)
    m.check('max-direction', abs(float((o @ sm) @ dm) - best) <= 1e-6 * np.linalg.norm(sm) * np.linalg.norm(dm),
            got=float((o @ sm) @ dm), best=best, src=s, dst=d, src_max=sm, dst_max=dm)
    m.sig(s, d, sm, dm)


def many(m):
    rng = m.rng
    n, nv, ne = gen.dim(rng, 6), gen.many(rng, 5, 20), gen.many(rng, 5, 20)
    src = np.zeros((n, nv))
    dst = np.zeros((n, nv, ne))
    for i in range(nv):
        for j in range(ne):
            s, d = vectors(rng, n)
            if j == 0:
                src[:, i] = s
            dst[:, i, j] = d
    arg_d = dst
    if ne == 1 and rng.randint(2):
        arg_d = dst[:, :, 0]
        if nv == 1 and rng.randint(2):
            arg_d = dst[:, 0, 0]
    o = la.ml_orth_transl(src[:, 0].copy() if nv == 1 and rng.randint(2) else src.copy(), arg_d.copy())
    m.need('many-vectors', np.shape(o) == (n, n, ne, nv), got=np.shape(o), n=n, nv=nv, ne=ne)
    for i in range(nv):
        for j in range(ne):
            judge(m, 'ml_orth_transl', o[:, :, j, i], src[:, i], dst[:, i, j])
    m.sig(src, dst)


def whole(m):
    """Whole numbers of any type are numbers like others."""
    rng = m.rng
    n = gen.dim(rng, 6)
    s, d, sm, dm = (gen.whole(rng, n) for _ in range(4))
    if rng.randint(4) == 0:
        d = s.copy()
    fs, fd, fsm, fdm = (x.astype(float) for x in (s, d, sm, dm))
    for name in ('orth_transl', 'orth_transl_haus', 'orth_transl_qr'):
        a, b = form(rng, s, d)
        judge(m, name, getattr(la, name)(a, b), fs, fd)
    judge(m, 'ell_valign', ell_valign(d.copy(), s.copy()), fs, fd)
    mat = rng.standard_normal((n, n))
    o = la.orth_transl_max_tr(s.copy(), d.copy(), mat)
    judge(m, 'orth_transl_max_tr', o, fs, fd, 2.5e-7)
    o = la.orth_transl_max_dir(s.copy(), d.copy(), sm.copy(), dm.copy())
    if judge(m, 'orth_transl_max_dir', o, fs, fd, 2.5e-7):
        su, du = fs / np.linalg.norm(fs), fd / np.linalg.norm(fd)
        best = float(su @ fsm) * float(du @ fdm) + np.linalg.norm(fsm - (su @ fsm) * su) * np.linalg.norm(fdm - (du @ fdm) * du)
        m.check('max-direction', abs(float((o @ fsm) @ fdm) - best) <= 1e-6 * np.linalg.norm(fsm) * np.linalg.norm(fdm),
                got=float((o @ fsm) @ fdm), best=best, src=s, dst=d, src_max=sm, dst_max=dm)
    o = la.ml_orth_transl(s.reshape(-1, 1), d.reshape(-1, 1, 1))
    judge(m, 'ml_orth_transl', o[:, :, 0, 0], fs, fd)
    m.sig(s, d, sm, dm)


def zero(m):
    rng = m.rng
    n = gen.dim(rng, 6, lo=2)
    z, v = np.zeros(n), gen.nzvec(rng, n)
    for name in ('orth_transl', 'orth_transl_qr'):
        f = getattr(la, name)
        for col in (0, 1):
            a, b = (z.reshape(-1, 1), v.reshape(-1, 1)) if col else (z, v)
            m.raises('zero-rejected', lambda: f(a, b), 'src_zero')
            m.raises('zero-rejected', lambda: f(b, a), 'dst_zero')
    for bad in ((z, v), (v, z)):
        m.raises('zero-rejected', lambda: la.orth_transl_max_tr(bad[0], bad[1], np.eye(n)), '_zero')
        m.raises('zero-rejected', lambda: la.orth_transl_max_dir(bad[0], bad[1], v, v), '_zero')
        m.raises('zero-rejected', lambda: la.ml_orth_transl(bad[0], bad[1]), '_zero')
    m.raises('zero-rejected', lambda: la.orth_transl(v + 1e-3j, v))
    m.raises('zero-rejected', lambda: ell_valign(np.ones((2, 2)), v))
    m.raises('zero-rejected', lambda: ell_valign(v, np.ones((2, 2))))
    m.raises('zero-rejected', lambda: ell_valign(v, np.ones(n + 1)))
    m.raises('zero-rejected', lambda: ell_valign(np.array(['a']), v))
    m.sig(v)


CASES = [('large_basic', gen.large(basic, 20, 70), 12, 300), ('large_max_tr', gen.large(max_tr, 20, 70), 12, 300), ('large_max_dir', gen.large(max_dir, 20, 70), 12, 300), ('large_many', gen.large(many, 20, 70), 12, 300),
         ('basic', basic, 500, 20000), ('max_tr', max_tr, 350, 12000), ('max_dir', max_dir, 350, 12000),
         ('many', many, 100, 3000), ('whole', whole, 80, 2500), ('zero', zero, 12, 60)]
