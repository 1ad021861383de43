"""C02  Copies, replicas and exported dictionaries preserve every element."""
import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
from .. import gen

RULE = ('arrays of ellipsoids/hyperplanes (shapes () to 3-D, as arrays, nested lists or single objects; mixed '
        'dimensions, degenerate and empty members, explicit and default settings) copied, replicated, exported and '
        'imported, under a configuration changed after creation; distinct by content of the objects and array shape')
REQUIRED = ['same-shape', 'same-set', 'same-settings', 'distinct-objects', 'independent']


def settings_of(cls, o):
    r = [float(cls.get_abs_tol([o], None).flatten()[0]), float(cls.get_rel_tol([o], None).flatten()[0])]
    if cls is Ellipsoid:
        r += [float(cls.get_n_plot_2d_points([o]).flatten()[0]), float(cls.get_n_plot_3d_points([o]).flatten()[0])]
    return r


def ell(rng, n=None, kw=None):
    n = gen.dim(rng, 6) if n is None else n
    kw = gen.settings(rng) if kw is None else kw
    if rng.randint(8) == 0:                 # valid only within its own tolerance
        sh, kw['abs_tol'], _ = gen.loose(rng, n, -5, -1)
        return Ellipsoid(gen.center(rng, n), sh, **kw)
    return Ellipsoid(gen.center(rng, n), gen.spd(rng, n) if rng.randint(3) else gen.psd(rng, n), **kw)


def hyp(rng, n=None, kw=None):
    n = gen.dim(rng, 6) if n is None else n
    kw = gen.settings(rng, True) if kw is None else kw
    return Hyperplane(gen.nzvec(rng, n), float(gen.pick(rng, 0., rng.standard_normal(), 5 * rng.standard_normal())), **kw)


def nothing(cls, rng):
    """An empty object."""
    if cls is Ellipsoid:
        return Ellipsoid(**gen.settings(rng))
    kw = gen.settings(rng, True)
    return gen.pick(rng, lambda: Hyperplane(**kw), lambda: Hyperplane(np.zeros(0), **kw), lambda: Hyperplane(np.zeros(1), 0., **kw))()


def params(o):
    a, b = o.parameters()
    return np.array(a, dtype=float), np.array(b, dtype=float)


def disturb_config(rng):
    """Settings of existing objects may not be taken from the configuration of the moment."""
    if rng.randint(2):
        Properties.set_abs_tol(3e-7)
        Properties.set_rel_tol(2e-4)
        Properties.set_n_plot_2d_points(33)
        Properties.set_n_plot_3d_points(44)


def compare(m, cls, orig, res, shp, exact=True):
    m.need('same-shape', isinstance(res, np.ndarray) and res.shape == tuple(shp), got=np.shape(res), expected=shp)
    res = list(res.flatten())
    for o, r in zip(orig, res):
        m.need('same-set', type(r) is cls, got=type(r))
        po, pr = params(o), params(r)
        if exact:
            m.close('same-set', pr[0], po[0], 0.)
            m.close('same-set', pr[1], po[1], 0.)
        else:            # hyperplanes: the same set, whatever the scaling of the normal
            oe, re = bool(cls.is_empty([o]).flatten()[0]), bool(cls.is_empty([r]).flatten()[0])
            m.check('same-set', oe == re and int(cls.dimension([r]).flatten()[0]) == int(cls.dimension([o]).flatten()[0]),
                    got=pr, expected=po)
            if not oe and not re:
                k = float(pr[0] @ po[0]) / float(po[0] @ po[0])
                m.check('same-set', abs(k) > 0, got=pr, expected=po)
                m.close('same-set', pr[0], k * po[0], 1e-9)
                m.close('same-set', pr[1], k * po[1], 1e-9)
        m.check('same-settings', settings_of(cls, r) == settings_of(cls, o),
                got=settings_of(cls, r), expected=settings_of(cls, o))
    ids = {id(r) for r in res}
    m.check('distinct-objects', len(ids) == len(res) and not ids & {id(o) for o in orig})
    return res


def independent(m, orig, res):
    """Changing one object in place (projection) affects no other one."""
    rng = m.rng
    cand = [i for i, r in enumerate(res) if params(r)[0].size > 1]
    if not cand:
        return
    i = cand[rng.randint(len(cand))]
    others = [o for o in orig] + [r for k, r in enumerate(res) if k != i]
    before = [params(o) for o in others]
    n = params(res[i])[0].size
    Ellipsoid.projection([res[i]], np.eye(n)[:, :1])
    m.check('independent', params(res[i])[0].size == 1)
    for o, b in zip(others, before):
        a = params(o)
        m.check('independent', all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(a, b)), got=a, expected=b)


def copies(m):
    rng = m.rng
    cls, make = ((Ellipsoid, ell), (Hyperplane, hyp))[rng.randint(2)]
    shp = gen.shape(rng)
    objs = [make(rng) for _ in range(int(np.prod(shp)))]
    if rng.randint(4) == 0:
        objs[rng.randint(len(objs))] = nothing(cls, rng)
    if rng.randint(5) == 0 and len(objs) > 1:
        objs[1] = objs[0]                   # the same object twice
    disturb_config(rng)
    res = compare(m, cls, objs, cls.get_copy(gen.as_arg(rng, objs, shp)), shp)
    if cls is Ellipsoid:
        independent(m, objs, res)
    m.sig([list(params(o)) for o in objs], shp)
    m.sample(cls=cls.__name__, shape=shp, first=params(objs[0]))


def replicas(m):
    rng = m.rng
    cls, make = ((Ellipsoid, ell), (Hyperplane, hyp))[rng.randint(2)]
    shp = tuple(int(x) for x in rng.randint(1, 4, rng.randint(1, 4)))
    arg = gen.pick(rng, list(shp), shp, np.array(shp), np.array(shp).reshape(1, -1), np.array(shp).reshape(-1, 1))
    kw = gen.settings(rng, cls is Hyperplane)
    o = make(rng, kw=kw)
    if rng.randint(8) == 0:
        o = cls(**kw)
    n = int(np.prod(shp))
    disturb_config(rng)
    res = compare(m, cls, [o] * n, o.rep_mat(arg), shp)
    if cls is Ellipsoid:
        independent(m, [o], res)
    Properties.init()
    p = params(o)
    res = cls.from_rep_mat(*(list(p) + [arg]), **kw)
    res = compare(m, cls, [o] * n, res, shp)
    if cls is Ellipsoid:
        independent(m, [o], res)
    z = list(shp)
    z[rng.randint(len(z))] = 0
    m.check('same-shape', o.rep_mat(z).shape == tuple(z), shape=z)
    for bad in ([-1], [2, -2], [1.5], [], np.ones((2, 2), dtype=int), ['a', 'b']):
        m.raises('bad-size', lambda: o.rep_mat(bad), size=bad)
    m.sig(list(p), shp)


def dictionaries(m):
    rng = m.rng
    cls, make = ((Ellipsoid, ell), (Hyperplane, hyp))[rng.randint(2)]
    shp = gen.shape(rng)
    objs = gen.alias(rng, [make(rng) for _ in range(int(np.prod(shp)))])
    if rng.randint(4) == 0:
        objs[rng.randint(len(objs))] = nothing(cls, rng)
    disturb_config(rng)
    dicts = cls.to_dict(gen.as_arg(rng, objs, shp), True)[0]
    m.need('same-shape', np.shape(dicts) == tuple(shp), got=np.shape(dicts), expected=shp)
    disturb_config(rng)
    form = dicts.tolist() if rng.randint(3) == 0 else dicts
    back = cls.from_dict(form)
    res = compare(m, cls, objs, back, shp, exact=cls is Ellipsoid)
    if cls is Ellipsoid:
        independent(m, objs, res)
        # the dictionaries stay usable after the import
        again = cls.from_dict(form)
        compare(m, cls, objs, again, shp)
    for d in np.array(dicts).flatten():
        for v in d.values():
            if isinstance(v, np.ndarray):
                v[...] = 9.
    keep = [params(o) for o in objs]
    compare(m, cls, objs, cls.get_copy(gen.obj_array(objs, shp)), shp)
    m.check('independent', all(np.array_equal(params(o)[0], k[0]) and np.max(np.abs(k[0]), initial=0) != 9.
                               for o, k in zip(objs, keep)))
    m.sig([list(params(o)) for o in objs], shp)


def crowd(m):
    """Hundreds of copies, replicas and dictionaries."""
    rng = m.rng
    cls, make = ((Ellipsoid, ell), (Hyperplane, hyp))[rng.randint(2)]
    n = rng.randint(55, 700)
    shp = gen.pick(rng, (n,), (n // 5, 5), (2, n // 4, 2))
    n = int(np.prod(shp))
    kw = gen.settings(rng, cls is Hyperplane)
    dim = rng.randint(1, 4)
    how = rng.randint(4)
    if how < 2:
        o = make(rng, dim, kw=dict(kw))
        objs = [o] * n
        if how:
            res = o.rep_mat(list(shp))
        else:
            kw = dict(zip(('abs_tol', 'rel_tol', 'n_plot_2d_points', 'n_plot_3d_points'), settings_of(cls, o)))
            for k in ('n_plot_2d_points', 'n_plot_3d_points'):
                if k in kw:
                    kw[k] = int(kw[k])
            res = cls.from_rep_mat(*(list(params(o)) + [list(shp)]), **kw)
    else:
        few = [make(rng) for _ in range(20)]
        objs = [few[rng.randint(20)] for _ in range(n)]
        arr = gen.obj_array(objs, shp)
        disturb_config(rng)
        res = cls.get_copy(arr) if how == 2 else cls.from_dict(cls.to_dict(arr, True)[0])
    res = compare(m, cls, objs, res, shp, exact=cls is Ellipsoid or how == 2)
    if cls is Ellipsoid:
        for _ in range(2):
            independent(m, objs[:30], res)
    m.sig([list(params(o)) for o in objs[:30]], shp, how)
    m.sample(cls=cls.__name__, shape=shp, how=how)


CASES = [('copies', copies, 240, 6000), ('crowd', crowd, 10, 200), ('replicas', replicas, 120, 3000), ('dictionaries', dictionaries, 120, 3000)]
