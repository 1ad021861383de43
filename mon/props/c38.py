"""C38  Only valid hyperplanes exist, isolated from caller arrays."""
import numpy as np
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from .. import gen

RULE = ('random normals of dimension 1..13 in every accepted form (flat, row, column, page; integer, boolean, single precision, complex with '
        'zero or negligible imaginary part; any memory layout) with shifts given as number, array or list of one number, '
        'every kind of invalid input, one-dimensional normals around the tolerance, and the results of operations; distinct '
        'by content of the arrays')
REQUIRED = ['reported-data', 'valid-object', 'isolated', 'rejected', 'empty', 'dimension']
DEF_TOL = 1e-7


def valid(m, h):
    v, s = h.parameters()
    m.check('valid-object', isinstance(v, np.ndarray) and v.ndim == 1 and v.dtype == np.float64 and bool(np.all(np.isfinite(v))) and
            np.ndim(s) == 0 and isinstance(s, (float, np.floating)) and bool(np.isfinite(s)), normal=v, shift=s)


def reported(m, h, v, s, mech='reported-data'):
    for f in (h.parameters, h.double):
        a, b = f()
        m.close(mech, a, v, 0.)
        m.check(mech, np.ndim(b) == 0 and float(b) == s, shift=b, expected=s)


def dim_of(h):
    return int(np.array(Hyperplane.dimension([h])).flatten()[0])


def tol_of(h):
    return float(np.array(Hyperplane.get_abs_tol([h], None)).flatten()[0])


def build(m):
    rng = m.rng
    n = gen.dim(rng, 8)
    kw = gen.settings(rng, hyp=True)
    v = gen.nzvec(rng, n)
    if rng.randint(4) == 0:
        v = v * 10. ** rng.uniform(-12, 12)
    huge = rng.randint(12) == 0
    if huge:                                         # near the largest number there is
        v = v / np.max(np.abs(v)) * gen.pick(rng, 1e308, 1.7e308, 1e200)
    s = float(gen.pick(rng, 0., rng.uniform(-5, 5), -10. ** rng.uniform(-12, 12)))
    kind = int(rng.randint(8))
    if kind == 0:
        v = rng.randint(-5, 6, n)
        v[rng.randint(n)] = 3
        s = int(rng.randint(-4, 5))
    elif kind == 1:
        v = rng.randint(0, 2, n).astype(bool)
        v[rng.randint(n)] = True
        s = gen.pick(rng, True, False, np.bool_(True))
    elif kind == 2:
        v = np.clip(v, -1e38, 1e38).astype(np.float32)
        s = np.float32(np.clip(s, -1e30, 1e30))
    elif kind == 3:                                  # nothing but a real number stored as complex
        v = v.astype(complex)
        s = gen.pick(rng, complex(s), np.complex128(s), s)
    elif kind == 4:                                  # negligible imaginary part
        v = v + 1j * rng.uniform(-1, 1, n) * 1e-17 / n
        s = gen.pick(rng, complex(s, 1e-17), np.complex128(complex(s, -1e-17)), s)
    elif kind == 5:
        v = rng.randint(1, 200, n).astype(gen.pick(rng, np.uint8, np.int16, np.uint64, np.int64))
        s = gen.pick(rng, np.uint8(200), np.int64(-7), 2 ** 40)
    exp_v = np.array(np.real(v), dtype=np.float64)
    exp_s = float(np.real(s))
    form = int(rng.randint(5))
    v_in = np.array(v)
    if form == 1:
        v_in = v_in.reshape(1, -1)
    elif form == 2:
        v_in = v_in.reshape(-1, 1)
    elif form == 3:
        v_in = np.repeat(v_in, 3)[::3]
    elif form == 4 and kind != 4:
        v_in = v_in.reshape(gen.pick(rng, (1, 1, -1), (1, -1, 1), (-1, 1, 1)))
    s_form = int(rng.randint(5))
    s_in = [s, np.array([s]), np.array(s), np.array([[s]]), [s] if not isinstance(s, (complex, np.complexfloating)) else s][s_form]
    h = Hyperplane(v_in, s_in, **kw)
    m.sig(n, exp_v, exp_s, kind, form, s_form)
    m.sample(normal=exp_v, shift=exp_s, kind=kind, form=form, shift_form=s_form)
    reported(m, h, exp_v, exp_s)
    valid(m, h)
    if n > 1:
        m.check('dimension', dim_of(h) == n, got=dim_of(h), n=n)
        m.check('dimension', not bool(np.array(Hyperplane.is_empty([h])).flatten()[0]))
    if exp_s == 0. and rng.randint(2):
        reported(m, Hyperplane(v_in, **kw), exp_v, 0.)
    # writing into the inputs or into handed-out arrays never changes the object
    v_in[...] = 77
    if isinstance(s_in, np.ndarray):
        s_in[...] = 1
    elif isinstance(s_in, list):
        s_in[0] = 99.
    for f in (h.parameters, h.double):
        f()[0][...] = 33.
    reported(m, h, exp_v, exp_s, 'isolated')
    if n > 1 and 1e-100 < np.linalg.norm(exp_v) < 1e100:
        d = np.array(Hyperplane.to_dict([h], True)[0]).flatten()[0]
        d['normal_vec'][...] = 5.
        reported(m, h, exp_v, exp_s, 'isolated')
    # the same data through the other constructors
    src = dict(normal_vec=exp_v.copy(), shift=gen.pick(rng, exp_s, np.array([exp_s])))
    src.update(kw)
    f = np.array(Hyperplane.from_dict([src])).flatten()[0]
    g = Hyperplane.from_rep_mat(src['normal_vec'], src['shift'], [2], **kw)
    r = h.rep_mat([1, 2]).flatten()
    c = np.array(Hyperplane.get_copy([h])).flatten()
    src['normal_vec'][...] = 9.
    for o in [f] + list(g) + list(r) + list(c):
        reported(m, o, exp_v, exp_s)
        valid(m, o)
        m.check('isolated', o is not h)
        o.parameters()[0][...] = -1.
    for o in [f] + list(g) + list(r) + list(c) + [h]:
        reported(m, o, exp_v, exp_s, 'isolated')


def empty(m):
    """One-number normals around the tolerance, and no data at all."""
    rng = m.rng
    kw = gen.settings(rng, hyp=True)
    tol = kw.get('abs_tol', DEF_TOL)
    k = rng.randint(6)
    if k == 0:
        h = gen.pick(rng, lambda: Hyperplane(), lambda: Hyperplane(np.zeros((0,))), lambda: Hyperplane(np.array([0.])),
                     lambda: Hyperplane(np.array([0.]), 0.), lambda: Hyperplane(np.zeros((0, 0)), 0.))()
        tol = tol_of(h)
        v, s = h.parameters()
        v = float(v[0]) if v.size else 0.
        m.check('empty', v == 0. and s == 0., normal=v, shift=s)
    else:
        near = lambda: rng.choice([-1., 1.]) * gen.pick(rng, 0., 0.5 * tol, 0.9 * tol, tol, 1.1 * tol, 2. * tol, 1.)
        v, s = near(), near()
        h = Hyperplane(np.array([v]), s, **kw)
        tol = tol_of(h)
        m.check('reported-data', tol == kw.get('abs_tol', tol), got=tol, kw=kw)
        reported(m, h, np.array([v]), s)
    exp = 0 if abs(v) <= tol and abs(s) <= tol else 1
    got = Hyperplane.dimension([h])
    m.check('dimension', got.shape == (1,) and int(got[0]) == exp, got=got, expected=exp, normal=v, shift=s, tol=tol)
    m.check('empty', bool(np.array(Hyperplane.is_empty([h])).flatten()[0]) == (exp == 0), normal=v, shift=s, tol=tol)
    m.sig(v, s, tol)


def reject(m):
    rng = m.rng
    n = int(gen.pick(rng, rng.randint(2, 7), 4, 6))
    kw = gen.settings(rng, hyp=True)
    v = gen.nzvec(rng, n)
    s = float(rng.uniform(-3, 3))
    i = rng.randint(n)
    bad = {}

    def put(val):
        r = v.astype(complex) if isinstance(val, complex) else v.copy()
        r[i] = val
        return r
    for name, val in (('nan', np.nan), ('inf', np.inf), ('minus-inf', -np.inf)):
        bad['normal-' + name] = (gen.pick(rng, put(val), put(val).reshape(-1, 1), put(val).reshape(1, -1)), s)
        bad['shift-' + name] = (v, gen.pick(rng, val, np.array([val]), [val]))
    bad['normal-complex'] = (put(complex(v[i] * gen.pick(rng, 1., 1., 1e9), gen.pick(rng, 1., -0.3, 1e-6, 1e-12))), s)
    bad['normal-complex-nan'] = (put(complex(v[i], np.nan)), s)
    bad['shift-complex'] = (v, gen.pick(rng, complex(s, 1.), complex(s, -1e-12), complex(1e9 * s, 1e-9), np.array([s + 1e-9j])))
    bad['normal-matrix'] = (np.outer(v, v), s)
    bad['normal-pages'] = (np.ones((2, 1, 2)), s)
    if n % 2 == 0 and n > 2:
        bad['normal-folded'] = (v.reshape(gen.pick(rng, (2, -1), (-1, 2), (2, 1, -1))), s)
    bad['normal-list'] = (v.tolist(), s)
    bad['normal-tuple'] = (tuple(v), s)
    bad['normal-number'] = (float(v[0]), s)
    bad['normal-zero-dim'] = (np.array(v[0]), s)
    bad['normal-none'] = (None, s)
    bad['normal-text'] = (np.array(['a'] * n), s)
    bad['normal-number-text'] = (np.array(['1'] * n), s)
    bad['normal-objects'] = (np.array([None] + list(v), dtype=object), s)
    bad['normal-hyperplane'] = (Hyperplane(v, s), s)
    bad['shift-text'] = (v, gen.pick(rng, '3', 'a', np.array(['1'])))
    bad['shift-none'] = (v, None)
    bad['shift-two'] = (v, gen.pick(rng, np.array([1., 2.]), [1., 2.], np.ones((2, 1))))
    bad['shift-many'] = (v, v.copy())
    bad['shift-no-number'] = (v, gen.pick(rng, np.zeros((0,)), []))
    for name in sorted(bad):
        a, b = bad[name]
        m.raises('rejected', lambda: Hyperplane(a, b, **kw), what=name, normal=a, shift=b)
        if rng.randint(3) == 0:
            d = dict(normal_vec=a, shift=b)
            d.update(kw)
            e = np.empty((1,), dtype=object)
            e[0] = d
            m.raises('rejected', lambda: Hyperplane.from_dict(e), what=name, normal=a, shift=b)
            m.raises('rejected', lambda: Hyperplane.from_rep_mat(a, b, [2], **kw), what=name, normal=a, shift=b)
    t = gen.pick(rng, -1., 'x', np.array([1e-6, 1e-7]))
    m.raises('rejected', lambda: Hyperplane(v, s, **{gen.pick(rng, 'abs_tol', 'rel_tol'): t}), what='tolerance', value=t)
    m.sig(v, s, i)


def results(m):
    """Every hyperplane produced by an operation is valid."""
    rng = m.rng
    n = gen.dim(rng, 6)
    shp = gen.shape(rng)
    hyps = [Hyperplane(gen.nzvec(rng, n), float(gen.pick(rng, 0., rng.uniform(-3, 3))), **gen.settings(rng, hyp=True))
            for _ in range(int(np.prod(shp)))]
    arg = gen.as_arg(rng, hyps, shp)
    out = []
    for r in (Hyperplane.uminus(arg), Hyperplane.get_copy(arg), Hyperplane.from_dict(Hyperplane.to_dict(arg, True)[0])):
        out += list(np.array(r).flatten())
    m.check('valid-object', len(out) == 3 * len(hyps), got=len(out), expected=3 * len(hyps))
    for o in out:
        valid(m, o)
        m.check('dimension', dim_of(o) == n, got=dim_of(o), n=n)
    for h in hyps:
        valid(m, h)
    m.sig([h.parameters() for h in hyps])


CASES = [('large_build', gen.large(build, 20, 70), 12, 300),
         ('crowd_results', gen.crowded(results, 500), 5, 100),
         ('build', build, 300, 9000), ('empty', empty, 80, 1500), ('reject', reject, 50, 1500), ('results', results, 50, 1500)]
