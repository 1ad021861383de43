"""C01  Only valid ellipsoids exist, isolated from caller arrays."""
import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.core import ell_unitball
from .. import gen

RULE = ('random centres/shapes of dimension 1..19 in every accepted form (flat, row, column; integer, float32, complex '
        'within tolerance; asymmetric or indefinite within tolerance), every kind of invalid input just beyond the '
        'tolerance, and the results of operations; distinct by content of the arrays, trivial when nothing was built')
REQUIRED = ['reported-data', 'valid-object', 'isolated', 'rejected', 'empty']
DEF_TOL = 1e-6


def valid(m, e, tol):
    q, sh = e.parameters()
    ok = isinstance(q, np.ndarray) and isinstance(sh, np.ndarray) and q.ndim == 1 and sh.shape == (q.size, q.size) and \
        bool(np.all(np.isfinite(q))) and bool(np.all(np.isfinite(sh))) and q.dtype == np.float64 and sh.dtype == np.float64
    if ok and q.size:
        ok = float(np.max(np.abs(sh - sh.T))) <= tol and np.min(np.linalg.eigvalsh(0.5 * sh + 0.5 * sh.T)) >= -1.01 * tol - 1e-12
    m.check('valid-object', ok, center=q, shape=sh, tol=tol)


def tol_of(e):
    return float(Ellipsoid.get_abs_tol([e], None).flatten()[0])


def build(m):
    rng = m.rng
    n = gen.dim(rng, 8) if rng.randint(10) else int(rng.randint(9, 20))
    kw = gen.settings(rng)
    tol = kw.get('abs_tol', DEF_TOL)
    sh = gen.pick(rng, gen.spd, gen.psd)(rng, n)
    q = gen.center(rng, n)
    kind = rng.randint(9)
    if kind == 0:                                   # integer data
        sh = np.diag(rng.randint(0, 9, n))
        q = rng.randint(-5, 6, n)
    elif kind == 1:                                 # slightly asymmetric
        sh = sh + np.triu(np.full((n, n), 0.4 * tol), 1)
        sh += 2 * tol * np.eye(n)
    elif kind == 2:                                 # slightly indefinite
        d = np.abs(rng.standard_normal(n))
        d[rng.randint(n)] = -0.4 * tol
        sh = np.diag(d)
    elif kind == 3:                                 # negligible imaginary part
        sh = sh + 1j * np.full((n, n), 0.05 * tol / n)
        q = q + 1j * np.full(n, 0.05 * tol / n)
    elif kind == 4:
        sh = gen.spd(rng, n) * 10. ** rng.uniform(-9, 12)
        q = q * 10. ** rng.uniform(-9, 12)
    elif kind == 8:                                 # close to the largest and the smallest numbers
        s = 10. ** gen.pick(rng, 308.17, rng.uniform(300, 307.9), rng.uniform(150, 300), rng.uniform(-300, -100))
        sh, q = gen.sym(sh / max(1., np.max(np.abs(sh)))) * s, q / max(1., np.max(np.abs(q))) * gen.pick(rng, s, 1., 1. / s)
        if s > 1.:
            sh = np.diag(np.full(n, s)) + 1e-3 * sh
    exp_sh, exp_q = np.array(np.real(sh), dtype=np.float64), np.array(np.real(q), dtype=np.float64)
    if kind in (5, 6):
        sh_in = np.asfortranarray(sh) if kind == 5 else np.repeat(np.repeat(sh, 2, 0), 2, 1)[::2, ::2]
    else:
        sh_in = sh.copy()
    one = rng.randint(3) == 0
    if one:
        exp_q = np.zeros(n)
        e = Ellipsoid(sh_in, **kw)
    else:
        q_in = gen.vec_form(rng, q)
        e = Ellipsoid(q_in, sh_in, **kw)
    m.sig(n, exp_q, exp_sh, kind, one)
    m.sample(center=exp_q, shape=exp_sh, settings=kw, form=kind)
    m.close('reported-data', e.get_center_vec(), exp_q, 0.)
    m.close('reported-data', e.get_shape_mat(), exp_sh, 0.)
    for getter in (e.parameters, e.double):
        a, b = getter()
        m.close('reported-data', a, exp_q, 0.)
        m.close('reported-data', b, exp_sh, 0.)
    m.check('reported-data', int(Ellipsoid.dimension([e]).flatten()[0]) == n)
    valid(m, e, tol)
    # writing into the inputs or into handed-out arrays never changes the object
    sh_in[...] = 77.
    if not one:
        q_in[...] = -55.
    for arr in (e.get_center_vec(), e.get_shape_mat()) + tuple(e.parameters()) + tuple(e.double()):
        arr[...] = 33.
    m.close('isolated', e.get_center_vec(), exp_q, 0.)
    m.close('isolated', e.get_shape_mat(), exp_sh, 0.)
    d = Ellipsoid.to_dict([e], True)[0].flatten()[0]
    d['shape_mat'][...] = 5.
    d['center_vec'][...] = 5.
    m.close('isolated', e.get_center_vec(), exp_q, 0.)
    m.close('isolated', e.get_shape_mat(), exp_sh, 0.)
    # the same data through the other constructors
    src = {'shape_mat': exp_sh.copy(), 'center_vec': exp_q.copy()}
    src.update(kw)
    f = Ellipsoid.from_dict([src]).flatten()[0]
    g = Ellipsoid.from_rep_mat(exp_q, exp_sh, [2], **kw)
    src['shape_mat'][...] = 9.
    src['center_vec'][...] = 9.
    for o in [f] + list(g):
        m.close('reported-data', o.get_center_vec(), exp_q, 0.)
        m.close('reported-data', o.get_shape_mat(), exp_sh, 0.)
        valid(m, o, tol)


def empty(m):
    rng = m.rng
    e = gen.pick(rng, lambda: Ellipsoid(), lambda: Ellipsoid(np.zeros((0, 0))),
                 lambda: Ellipsoid(np.zeros((0,)), np.zeros((0, 0))))()
    q, sh = e.parameters()
    m.check('empty', q.shape == (0,) and sh.shape == (0, 0), q=q, sh=sh)
    m.check('empty', bool(Ellipsoid.is_empty([e]).flatten()[0]) and int(Ellipsoid.dimension([e]).flatten()[0]) == 0)
    n = gen.dim(rng, 6)
    b = ell_unitball(n)
    m.close('reported-data', b.get_shape_mat(), np.eye(n), 0.)
    m.close('reported-data', b.get_center_vec(), np.zeros(n), 0.)
    m.sig(m.index)


def reject(m):
    rng = m.rng
    n = int(gen.pick(rng, rng.randint(2, 6), 4, 6, rng.randint(9, 18)))
    kw = gen.settings(rng)
    tol = kw.get('abs_tol', DEF_TOL)
    sh = gen.spd(rng, n)
    q = gen.center(rng, n)
    i, j = rng.choice(n, 2, replace=False)
    bad = {}

    def put(mat, idx, v):
        r = np.array(mat, dtype=complex if isinstance(v, complex) else float)
        r[idx] = v
        return r
    bad['non-square'] = (q, sh[:, :-1]) if rng.randint(2) else (q, np.hstack([sh, sh[:, :1]]))
    asym = sh.copy()
    asym[i, j] += gen.pick(rng, 3 * tol, 1e-2, 1.)
    bad['asymmetric'] = (q, asym)
    d = rng.uniform(0.5, 2., n)
    d[i] = -gen.pick(rng, 3 * tol, 1e-2, 1.)
    o = gen.orth(rng, n)
    bad['indefinite'] = (q, gen.sym(o @ np.diag(d) @ o.T))
    bad['indefinite-diagonal'] = (q, np.diag(d))
    bad['complex-shape'] = (q, sh + 1j * gen.pick(rng, 3 * tol, 0.1) * np.eye(n))
    bad['complex-hermitian'] = (q, sh + 0.3j * (np.eye(n)[[i]].T @ np.eye(n)[[j]] - np.eye(n)[[j]].T @ np.eye(n)[[i]]))
    bad['complex-center'] = (put(q, i, q[i] + 1j * gen.pick(rng, 3 * tol, 0.1)), sh)
    for name, v in (('nan', np.nan), ('inf', np.inf), ('minus-inf', -np.inf)):
        bad[name + '-center'] = (put(q, i, v), sh)
        bad[name + '-diagonal'] = (q, put(sh, (i, i), v))
        t = put(sh, (i, j), v)
        t[j, i] = v
        bad[name + '-offdiagonal'] = (q, t)
    bad['dimension+'] = (np.append(q, 1.), sh)
    bad['dimension-'] = (q[:-1], sh)
    bad['center-matrix'] = (np.outer(q, q), sh)
    if n % 2 == 0 and n > 2:                         # as many numbers as needed, but not a vector
        bad['center-folded'] = (q.reshape(gen.pick(rng, (2, -1), (-1, 2))), sh)
    if n % 2 == 0 and n > 2:
        bad['center-block'] = (q.reshape(gen.pick(rng, (1, 2, -1), (2, 1, -1), (2, -1, 1), (1, 1, 2, -1))), sh)
    bad['center-column-longer'] = (np.append(q, 1.).reshape(-1, 1), sh)
    bad['shape-3d'] = (q, np.stack([sh, sh], 2))
    bad['shape-1d'] = (q, np.diag(sh).copy())
    bad['center-text'] = (np.array(['a'] * n), sh)
    bad['center-list'] = (q.tolist(), sh)
    bad['center-empty'] = (np.zeros((0,)), sh)
    bad['shape-empty'] = (q, np.zeros((0, 0)))
    names = sorted(bad)
    for name in names:
        c, s = bad[name]
        m.raises('rejected', lambda: Ellipsoid(c, s, **kw), what=name, center=c, shape=s)
        if 'center' not in name and not name.startswith('dimension') and name != 'shape-empty':
            m.raises('rejected', lambda: Ellipsoid(s, **kw), what=name, shape=s)
    m.raises('rejected', lambda: Ellipsoid(q, sh, bogus=1) if False else Ellipsoid(q, sh, abs_tol=-1.), what='abs_tol')
    m.sig(sh, q, i, j)


def results(m):
    """Every ellipsoid produced by an operation satisfies the same invariants."""
    rng = m.rng
    n = gen.dim(rng, 5)
    k = rng.randint(1, 4)
    ells = [Ellipsoid(gen.center(rng, n), gen.spd(rng, n) if rng.randint(4) else gen.psd(rng, n, max(n - 1, 0)))
            for _ in range(k)]
    dirs = gen.dirs(rng, n, 2)
    out = []
    full = all(not Ellipsoid.is_degenerate([e]).flatten()[0] for e in ells)
    out += list(np.array(Ellipsoid.minksum_ea(ells, dirs)).flatten())
    if full:
        out += list(np.array(Ellipsoid.minksum_ia(ells, dirs)).flatten())
    out += list(Ellipsoid.uminus(ells)) + list(Ellipsoid.get_copy(ells))
    basis = gen.orth(rng, n)[:, :rng.randint(1, n + 1)]
    out += list(Ellipsoid.get_projection(ells, basis))
    out += list(Ellipsoid.polar([Ellipsoid(0.2 * gen.nzvec(rng, n, 0.1, 1.), gen.spd(rng, n))]))
    out += list(ells[0].rep_mat([2, 2]).flatten())
    for e in out:
        valid(m, e, tol_of(e) + 1e-9)
    m.check('valid-object', len(out) > 0)
    m.sig([list(e.parameters()) for e in ells], dirs)


CASES = [('large_build', gen.large(build, 20, 70), 12, 300),
         ('build', build, 240, 6000), ('empty', empty, 6, 30), ('reject', reject, 40, 1200), ('results', results, 60, 1500)]
