"""C15  Negation reflects: ellipsoids through the origin, hyperplanes in place."""
import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from .. import gen

RULE = ('ellipsoids (full, degenerate, points, empty) and hyperplanes of dimension 1..6, single and in arrays and lists of '
        'every shape, negated once and twice by operator and by function; distinct by content')
REQUIRED = ['ellipsoid', 'ellipsoid-twice', 'hyperplane', 'hyperplane-twice', 'same-points', 'shape', 'operand-intact',
            'rejected', 'settings']


TOLS = ('get_abs_tol', 'get_rel_tol')
SETTINGS = TOLS + ('get_n_plot_2d_points', 'get_n_plot_3d_points')


def kept(m, neg, obj, getters, what):
    """The negation is valid and judged within the tolerances of the original."""
    def values(x):
        return [float(np.array(getattr(x, g)([x], None) if g in TOLS else getattr(x, g)([x])).flatten()[0]) for g in getters]
    a, b = values(neg), values(obj)
    m.check('settings', a == b, got=a, expected=b, what=what)


def ells(m):
    rng = m.rng
    shp = gen.shape(rng)
    k = int(np.prod(shp))
    data, es = [], []
    for _ in range(k):
        n = gen.dim(rng, 7)
        q, sh = gen.center(rng, n), gen.pick(rng, gen.spd, gen.psd)(rng, n)
        if rng.randint(4) == 0:
            s = 10. ** rng.uniform(-8, 4)
            q, sh = q * s, sh * s
        if n > 1 and rng.randint(5) == 0:   # asymmetric within the tolerance
            sh = sh + 1e-3 * np.eye(n)
            sh[0, n - 1] += 4e-10
        kw = gen.settings(rng)
        if rng.randint(6) == 0:             # valid only within its own tolerance
            sh, kw['abs_tol'], _ = gen.loose(rng, n, -5, -1)
        data.append((q, sh))
        es.append(Ellipsoid(q.copy(), sh.copy(), **kw))
    data, es = (list(t) for t in zip(*gen.alias(rng, list(zip(data, es)))))
    arg = gen.as_arg(rng, es, shp)
    neg = Ellipsoid.uminus(arg)
    m.need('shape', np.shape(neg) == np.shape(np.array(arg)), got=np.shape(neg), shp=shp)
    twice = Ellipsoid.uminus(neg)
    m.need('shape', np.shape(twice) == np.shape(np.array(arg)), got=np.shape(twice), shp=shp)
    for i, (q, sh) in enumerate(data):
        c, s = np.array(neg).flatten()[i].parameters()
        m.check('ellipsoid', np.array_equal(c, -q) and np.array_equal(s, sh), got=(c, s), expected=(-q, sh))
        c, s = np.array(twice).flatten()[i].parameters()
        m.check('ellipsoid-twice', np.array_equal(c, q) and np.array_equal(s, sh), got=(c, s), expected=(q, sh))
        c, s = (-es[i]).parameters()
        m.check('ellipsoid', np.array_equal(c, -q) and np.array_equal(s, sh), got=(c, s), expected=(-q, sh))
        kept(m, -es[i], es[i], SETTINGS, 'operator')
        kept(m, np.array(neg).flatten()[i], es[i], SETTINGS, 'function')
        kept(m, np.array(twice).flatten()[i], es[i], SETTINGS, 'twice')
        m.check('ellipsoid', type(-es[i]) is Ellipsoid and np.array(neg).flatten()[i] is not es[i])
        c, s = es[i].parameters()
        m.check('operand-intact', np.array_equal(c, q) and np.array_equal(s, sh), got=(c, s), expected=(q, sh))
        # the point set is reflected: supports in opposite directions coincide
        l = gen.nzvec(rng, q.size, 0.4, 1.).reshape(-1, 1)
        a, b = Ellipsoid.rho([-es[i]], l)[0], Ellipsoid.rho([es[i]], -l)[0]
        m.close('same-points', float(np.array(a).flatten()[0]), float(np.array(b).flatten()[0]),
                1e-7 * max(1., np.max(np.abs(q)), np.max(np.abs(sh))))
    m.sig(data, shp)
    m.sample(shp=shp, first=data[0])


def hyps(m):
    rng = m.rng
    shp = gen.shape(rng)
    k = int(np.prod(shp))
    data, hs = [], []
    for _ in range(k):
        n = gen.dim(rng, 7)
        v, c = gen.nzvec(rng, n), float(gen.pick(rng, 0., rng.uniform(-3, 3)))
        if rng.randint(3) == 0:             # tiny and huge data must survive as they are
            s = 10. ** rng.uniform(-7, 7)
            v, c = v * s, c * s * 10. ** rng.uniform(-3, 3)
        elif rng.randint(4) == 0:           # next to the origin
            c = 10. ** rng.uniform(-17, -3) * rng.choice([-1., 1.])
        data.append((v, c))
        hs.append(Hyperplane(v.copy(), c, **gen.settings(rng, True)))
    data, hs = (list(t) for t in zip(*gen.alias(rng, list(zip(data, hs)))))
    arg = gen.as_arg(rng, hs, shp)
    neg = Hyperplane.uminus(arg)
    m.need('shape', np.shape(neg) == np.shape(np.array(arg)), got=np.shape(neg), shp=shp)
    twice = Hyperplane.uminus(neg)
    m.need('shape', np.shape(twice) == np.shape(np.array(arg)), got=np.shape(twice), shp=shp)
    for i, (v, c) in enumerate(data):
        w, d = np.array(neg).flatten()[i].parameters()
        m.check('hyperplane', np.array_equal(w, -v) and float(d) == -c, got=(w, d), expected=(-v, -c))
        w, d = np.array(twice).flatten()[i].parameters()
        m.check('hyperplane-twice', np.array_equal(w, v) and float(d) == c, got=(w, d), expected=(v, c))
        one = -hs[i]
        w, d = one.parameters()
        m.check('hyperplane', np.array_equal(w, -v) and float(d) == -c and type(one) is Hyperplane and one is not hs[i],
                got=(w, d), expected=(-v, -c))
        kept(m, one, hs[i], TOLS, 'operator')
        kept(m, np.array(neg).flatten()[i], hs[i], TOLS, 'function')
        w, d = hs[i].parameters()
        m.check('operand-intact', np.array_equal(w, v) and float(d) == c, got=(w, d), expected=(v, c))
        if not 1e-3 < np.linalg.norm(v) < 1e3 or abs(c) > 1e3:
            continue
        x = v * c / float(v @ v)
        y = x + v / np.linalg.norm(v) * gen.pick(rng, 0.1, -2.)
        m.check('same-points', bool(np.all(Hyperplane.contains([one], x))) and not np.any(Hyperplane.contains([one], y)) and
                bool(np.all(Hyperplane.eq([one], [hs[i]])[0])) and bool(np.all(Hyperplane.is_parallel([one], [hs[i]]))),
                normal=v, shift=c)
    m.sig(data, shp)


def special(m):
    rng = m.rng
    e = -Ellipsoid()
    m.check('ellipsoid', bool(np.all(Ellipsoid.is_empty([e]))))
    p = -Ellipsoid(np.array([1., 2.]), np.zeros((2, 2)))
    m.check('ellipsoid', np.array_equal(p.get_center_vec(), [-1., -2.]) and not np.any(p.get_shape_mat()))
    for cls in (Ellipsoid, Hyperplane):
        for shp in ((0,), (0, 3), (2, 0), (1, 0, 2)):
            neg = cls.uminus(np.empty(shp, dtype=object))
            m.check('shape', np.shape(neg) == shp, got=np.shape(neg), expected=shp, cls=cls.__name__)
    m.raises('rejected', lambda: Ellipsoid.uminus([Hyperplane(np.ones(2), 1.)]))
    m.raises('rejected', lambda: Hyperplane.uminus([Ellipsoid(np.eye(2))]))
    m.raises('rejected', lambda: Ellipsoid.uminus([1, 2]))
    m.raises('rejected', lambda: Hyperplane.uminus(['a']))
    m.sig(m.index)


CASES = [('large_ells', gen.large(ells, 20, 70), 12, 300), ('large_hyps', gen.large(hyps, 20, 70), 12, 300),
         ('crowd_ells', gen.crowded(ells, 300), 5, 100), ('crowd_hyps', gen.crowded(hyps, 300), 5, 100),
         ('ells', ells, 200, 6000), ('hyps', hyps, 150, 5000), ('special', special, 3, 10)]
