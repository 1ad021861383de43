"""C03  Ellipsoid equality is tolerance equality of centre and root of shape."""
import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from .. import gen

RULE = ('pairs (and arrays) of ellipsoids: equal, of different dimension, or differing in one or several entries of the '
        'centre or of the root of the shape by a controlled amount below/above the absolute or relative tolerance; '
        'the expected verdict is recomputed from the definition with an independent root, pairs closer than 20% to '
        'a threshold are skipped; distinct by content')
REQUIRED = ['verdict', 'negation', 'symmetric', 'reflexive', 'report', 'array-element', 'settings', 'shape']


def root(a):
    d, v = np.linalg.eigh(gen.sym(a))
    return v @ np.diag(np.sqrt(np.maximum(d, 0.))) @ v.T


def field_equal(a, b, abs_tol, rel_tol):
    """True/False by the definition, None when too near to a threshold to tell."""
    diff = np.abs(a - b)
    mag = np.abs(a) + np.abs(b)
    res = True
    for d, s in zip(diff.flatten(), mag.flatten()):
        if d > abs_tol and 2 * d > rel_tol * s:
            if d < 1.2 * abs_tol or 2 * d < 1.2 * rel_tol * s:
                return None
            res = False
        elif d <= abs_tol:
            if d > 0.8 * abs_tol and 2 * d > 0.8 * rel_tol * s:
                return None
        elif 2 * d > 0.8 * rel_tol * s:
            return None
    return res


def ref_equal(x, y, abs_tol, rel_tol):
    if x[0].size != y[0].size:
        return False
    r = [field_equal(x[0], y[0], abs_tol, rel_tol), field_equal(root(x[1]), root(y[1]), abs_tol, rel_tol)]
    if False in r:
        return False
    return None if None in r else True


def tols(objs):
    return (float(np.min(Ellipsoid.get_abs_tol(objs, None))), float(np.min(Ellipsoid.get_rel_tol(objs, None))))


def base(rng, n, scale):
    r = root(gen.spd(rng, n, 0.5, 3.)) * scale
    q = gen.center(rng, n) * scale
    return q * 10. ** rng.uniform(0, 4) if rng.randint(4) == 0 else q, r


def perturb(rng, q, r, abs_tol, rel_tol):
    """A copy with one or several entries changed by an amount around the tolerances."""
    q, r = q.copy(), r.copy()
    for _ in range(rng.randint(1, 3)):
        where = rng.randint(3)
        n = q.size
        i, j = rng.randint(n), rng.randint(n)
        old = q[i] if where == 0 else r[i, j]
        kind = rng.randint(6)
        if kind < 2:
            amount = abs_tol * rng.uniform(0.1, 0.7)
        elif kind < 3:
            amount = abs_tol * np.exp(rng.uniform(np.log(1.3), np.log(50.)))
        elif kind < 4:
            amount = rel_tol * abs(old) * rng.uniform(0.1, 0.7)
        elif kind < 5:
            amount = rel_tol * abs(old) * np.exp(rng.uniform(np.log(1.3), np.log(50.))) + 1.5 * abs_tol
        else:
            amount = rng.uniform(0.01, 0.5) * (abs(old) + 0.1)
        amount *= rng.choice([-1., 1.])
        if where == 0:
            q[i] += amount
        elif i == j:
            r[i, i] += amount
        else:
            r[i, j] += amount
            r[j, i] += amount
    return q, r


def psd_ok(r):
    return np.min(np.linalg.eigvalsh(r)) > 1e-3


def pairs(m):
    rng = m.rng
    n = gen.dim(rng, 5)
    abs_tol = float(10. ** rng.uniform(-7, -4))
    rel_tol = float(10. ** rng.uniform(-6, -3))
    scale = float(10. ** rng.uniform(-1, 2.5))
    q, r = base(rng, n, scale)
    kind = rng.randint(8)
    if kind == 0:
        q2, r2 = q.copy(), r.copy()
    elif kind == 1:
        n2 = n + rng.choice([-1, 1]) if n > 1 else 2
        q2, r2 = base(rng, n2, scale)
    elif kind == 2:
        q2, r2 = base(rng, n, scale)
    else:
        q2, r2 = perturb(rng, q, r, abs_tol, rel_tol)
        while not psd_ok(r2):
            q2, r2 = perturb(rng, q, r, abs_tol, rel_tol)
    a = Ellipsoid(q, gen.sym(r @ r), abs_tol=abs_tol * (1 if rng.randint(2) else 7.),
                  rel_tol=rel_tol * (1 if rng.randint(2) else 9.))
    b = Ellipsoid(q2, gen.sym(r2 @ r2), abs_tol=abs_tol, rel_tol=rel_tol)
    exp = ref_equal(a.parameters(), b.parameters(), *tols([a, b]))
    for x, y, mech in ((a, b, 'verdict'), (b, a, 'symmetric')):
        forms = [[x], x, np.array([x]), np.array([[x]])]
        fx, fy = gen.pick(rng, *forms), gen.pick(rng, [y], y, np.array([y]))
        eq, rep = gen.pick(rng, Ellipsoid.is_equal, Ellipsoid.eq)(fx, fy)
        eq = np.array(eq)
        m.check('shape', eq.size == 1, got=eq)
        got = bool(eq.flatten()[0])
        if exp is not None:
            m.check(mech, got == exp, a=a.parameters(), b=b.parameters(), expected=exp, tols=tols([a, b]))
        else:
            m.note('near-threshold pairs skipped')
        m.check('report', (rep == '') == got, report=rep, equal=got)
        op, nop = x == y, x != y
        m.check('negation', bool(op) == got and bool(nop) == (not got), eq=op, ne=nop, is_equal=got)
        ne, nrep = Ellipsoid.ne([x], [y])
        m.check('negation', bool(np.array(ne).flatten()[0]) == (not got), ne=ne, is_equal=got)
    for x in (a, b):
        m.check('reflexive', bool(x == x) and not bool(x != x), x=x.parameters())
        c = Ellipsoid.get_copy([x])[0]
        m.check('reflexive', bool(x == c) and bool(c == x), x=x.parameters())
    m.sig(list(a.parameters()), list(b.parameters()), abs_tol, rel_tol)
    m.sample(a=a.parameters(), b=b.parameters(), tols=tols([a, b]), expected=exp)


def thin(m):
    """Flat and needle-like ellipsoids: a small semiaxis differs while the shape entries hardly do."""
    rng = m.rng
    n = gen.dim(rng, 5)
    abs_tol = float(10. ** rng.uniform(-5.5, -4))
    q, v = gen.center(rng, n), gen.orth(rng, n) if rng.randint(2) else np.eye(n)
    s1 = np.where(rng.uniform(size=n) < 0.5, np.exp(rng.uniform(np.log(0.3), np.log(3.), n)), 0.)
    k = rng.randint(n)
    s1[k] = gen.pick(rng, 0., 1e-3, 3e-3, 0.02)
    s2 = s1.copy()
    s2[k] += abs_tol * float(gen.pick(rng, 0., 0.1, 3., 10., 50., 200.))
    sh1, sh2 = ((v * s ** 2) @ v.T for s in (s1, s2))
    a, b = (Ellipsoid(q, gen.sym(sh), abs_tol=abs_tol, rel_tol=1e-5) for sh in (sh1, sh2))
    exp = field_equal((v * s1) @ v.T, (v * s2) @ v.T, abs_tol, 1e-5)
    for x, y, mech in ((a, b, 'verdict'), (b, a, 'symmetric')):
        eq, rep = Ellipsoid.is_equal([x], [y])
        got = bool(np.array(eq).flatten()[0])
        if exp is not None:
            m.check(mech, got == exp, a=a.parameters(), b=b.parameters(), expected=exp, tol=abs_tol, s1=s1, s2=s2)
        m.check('report', (rep == '') == got, report=rep)
    m.sig(q, s1, s2, abs_tol)


def arrays(m):
    rng = m.rng
    n = gen.dim(rng, 4)
    abs_tol, rel_tol = (1e-6, 1e-5) if rng.randint(3) == 0 else \
        (float(10. ** rng.uniform(-7, -4)), float(10. ** rng.uniform(-6, -3)))
    pool = [base(rng, n, 1.) for _ in range(3)]
    if rng.randint(3) == 0:
        pool.append(base(rng, n + 1, 1.))

    def make():
        q, r = pool[rng.randint(len(pool))]
        if rng.randint(2):
            for _ in range(50):
                q2, r2 = perturb(rng, q, r, abs_tol, rel_tol)
                if psd_ok(r2):
                    q, r = q2, r2
                    break
        return Ellipsoid(q, gen.sym(r @ r), abs_tol=abs_tol * spread[0], rel_tol=rel_tol * spread[1])
    spread = gen.pick(rng, (1., 1.), (30., 1.), (1., 30.), (30., 30.))
    shp = gen.shape(rng) if gen.CROWD or rng.randint(5) else gen.pick(rng, *gen.BIG_SHAPES)
    k = int(np.prod(shp))
    one = rng.randint(3)
    first, sec = [make() for _ in range(k)], [make() for _ in range(k)]
    for i in range(k):
        how = rng.randint(4)
        if how < 2:
            sec[i] = Ellipsoid.get_copy([first[i]])[0]
        if how:
            continue
        q, r = first[i].parameters()
        r = root(r)
        q2, r2 = perturb(rng, q, r, abs_tol, rel_tol)
        if psd_ok(r2):
            sec[i] = Ellipsoid(q2, gen.sym(r2 @ r2), abs_tol=abs_tol * spread[0], rel_tol=rel_tol * spread[1])
    # the smallest tolerances may sit in any one object
    for t in ('abs_tol', 'rel_tol'):
        for x in gen.pick(rng, [first], [sec], [first, sec], []):
            i = rng.randint(k)
            kw = dict(abs_tol=float(Ellipsoid.get_abs_tol([x[i]], None).flatten()[0]),
                      rel_tol=float(Ellipsoid.get_rel_tol([x[i]], None).flatten()[0]))
            kw[t] = dict(abs_tol=abs_tol, rel_tol=rel_tol)[t]
            x[i] = Ellipsoid(*x[i].parameters(), **kw)
    first, sec = gen.alias(rng, first), gen.alias(rng, sec)
    sec_shape = shp
    single = gen.pick(rng, (), (1,), (1, 1))
    if one == 1:
        first = [first[0]]
        fa, sa = gen.as_arg(rng, first, single), gen.as_arg(rng, sec, shp)
    elif one == 2:
        sec = [sec[0]]
        fa, sa = gen.as_arg(rng, first, shp), gen.as_arg(rng, sec, single)
    else:
        fa, sa = gen.as_arg(rng, first, shp), gen.as_arg(rng, sec, shp)
    eq, rep = Ellipsoid.is_equal(fa, sa)
    if k > 1:
        m.need('shape', np.shape(eq) == shp, got=np.shape(eq), expected=shp)
    eqf = np.array(eq).flatten()
    m.check('shape', eqf.size == k, got=np.shape(eq))
    used = tols(first + sec)
    for i in range(k):
        x, y = first[min(i, len(first) - 1)], sec[min(i, len(sec) - 1)]
        exp = ref_equal(x.parameters(), y.parameters(), *used)
        if exp is not None:
            m.check('array-element', bool(eqf[i]) == exp, i=i, tols=used, a=x.parameters(), b=y.parameters(), expected=exp)
    m.check('report', (rep == '') == bool(np.all(eqf)), report=rep, equal=eqf)
    ne, _ = Ellipsoid.ne(fa, sa)
    m.check('negation', np.array_equal(np.array(ne).flatten(), ~eqf))
    m.sig([list(e.parameters()) for e in first + sec], shp)
    # incompatible shapes and half-empty input are rejected
    if k > 1:
        more = gen.obj_array([make() for _ in range(k + 1)], (k + 1,))
        if not one:
            m.raises('array-rejected', lambda: Ellipsoid.is_equal(fa, more))
        m.raises('array-rejected', lambda: Ellipsoid.is_equal(fa, np.empty((0,), dtype=object)))
    e1, e2 = Ellipsoid(), Ellipsoid()
    m.check('verdict', bool(e1 == e2) and not bool(e1 != e2))
    x = make()
    m.check('verdict', not bool(e1 == x) and not bool(x == e1) and bool(x != e1))


def with_settings(m):
    rng = m.rng
    n = gen.dim(rng, 4)
    q, r = base(rng, n, 1.)
    kw = dict(abs_tol=float(10. ** rng.uniform(-8, -5)), rel_tol=float(10. ** rng.uniform(-7, -4)),
              n_plot_2d_points=int(rng.randint(10, 100)), n_plot_3d_points=int(rng.randint(10, 100)))
    other = dict(kw)
    which = sorted(kw)[rng.randint(4)]
    other[which] = kw[which] + rng.randint(1, 5) if which.startswith('n_') else kw[which] * 50. + 1e-3
    sh = gen.sym(r @ r)
    a, b, c = Ellipsoid(q, sh, **kw), Ellipsoid(q, sh, **other), Ellipsoid(q, sh, **kw)

    def eq(x, y, flag):
        res, rep = Ellipsoid.is_equal([x], [y], flag)
        got = bool(np.array(res).flatten()[0])
        m.check('report', (rep == '') == got, report=rep)
        return got
    m.check('settings', eq(a, c, True) and eq(c, a, True), kw=kw)
    m.check('settings', not eq(a, b, True) and not eq(b, a, True), differs=which, kw=kw, other=other)
    m.check('settings', eq(a, b, False) and eq(b, a, False), differs=which)
    m.check('settings', eq(a, Ellipsoid.get_copy([a])[0], True))
    d = Ellipsoid(q + 1. + np.abs(q), sh, **kw)
    m.check('settings', not eq(a, d, True))
    arr = gen.obj_array([a, b, c], (3,))
    res, rep = Ellipsoid.is_equal(a, arr, True)
    m.check('settings', np.array_equal(np.array(res).flatten(), [True, False, True]) and rep != '', got=res)
    m.sig(q, r, kw, other)


def loose(m):
    """Members valid only within their own tolerances, compared with members of other tolerances."""
    rng = m.rng
    n = gen.dim(rng, 5)
    sh, tol, pos = gen.loose(rng, n, -5, -2)
    q = gen.center(rng, n)
    a = Ellipsoid(q, sh, abs_tol=tol)
    other = gen.pick(rng, {}, dict(abs_tol=tol), dict(abs_tol=tol * 2.), dict(abs_tol=1e-9))
    up = np.eye(n) * (0.5 + 4. * tol)
    cand = [(Ellipsoid(q, sh, abs_tol=tol, rel_tol=float(10. ** rng.uniform(-7, -4))), True),
            (Ellipsoid(q + 3. + np.abs(q), sh, abs_tol=tol), False), (Ellipsoid(q, pos + up, **other), False),
            (Ellipsoid(q, pos + up, abs_tol=1e-9), False), (Ellipsoid(np.zeros(n + 1), np.eye(n + 1), **other), False),
            (Ellipsoid(**other), False)]
    rng.shuffle(cand)
    for b, exp in cand:
        for x, y in ((a, b), (b, a)):
            eq, rep = Ellipsoid.is_equal([x], [y])
            m.check('verdict', bool(np.all(eq)) == exp and (rep == '') == exp, a=x.parameters(), b=y.parameters(), got=eq, report=rep, tol=tol)
            m.check('verdict', bool(x == y) == exp and bool(x != y) != exp, a=x.parameters(), b=y.parameters())
    k = rng.randint(2, 5)
    pick = [cand[rng.randint(6)] for _ in range(k)]
    arr = gen.obj_array([b for b, _ in pick], (k,))
    for args in ((a, arr), (arr, a), (gen.obj_array([a] * k, (k,)), arr)):
        eq, rep = Ellipsoid.is_equal(*args)
        m.check('array-element', np.array(eq).flatten().tolist() == [e for _, e in pick], got=eq, expected=[e for _, e in pick])
    m.sig(q, sh, tol)


CASES = [('large_pairs', gen.large(pairs, 20, 70), 12, 300),
         ('crowd_arrays', gen.crowded(arrays, 300), 4, 100),
         ('loose', loose, 60, 1500), ('pairs', pairs, 300, 8000), ('thin', thin, 120, 3000), ('arrays', arrays, 120, 3000), ('with_settings', with_settings, 60, 1500)]
