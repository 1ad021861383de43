"""C36  Exports and printed text describe the object's own data."""
import re

import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
from .. import gen

RULE = ('arrays of ellipsoids and hyperplanes of dimension 1..6 (full, degenerate, point and empty ellipsoids; hyperplanes '
        'scaled, oriented both ways and through the origin; explicit and default settings) exported with and without '
        'settings and printed, under a configuration changed after creation; distinct by content')
REQUIRED = ['own-data', 'canonical', 'canonical-empty', 'fields', 'settings', 'tables', 'root', 'unchanged-by-transform', 'text-class', 'text-fields',
            'text-data', 'text-equal-copies', 'object-unchanged', 'independent']
NUM = re.compile(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?')
ELL_SET = ['abs_tol', 'rel_tol', 'n_plot_2d_points', 'n_plot_3d_points']


def make_ell(rng):
    kw = gen.settings(rng)
    if rng.randint(12) == 0:
        return Ellipsoid(**kw), np.zeros((0,)), np.zeros((0, 0)), kw
    n = gen.dim(rng, 7)
    q = gen.center(rng, n) * gen.pick(rng, 1., 1., 1e3, 1e-3, 1e-12, 1e12)
    make = gen.pick(rng, gen.spd, gen.spd, gen.psd)
    sh = make(rng, n) * gen.pick(rng, 1., 1., 1e3, 1e-7, 1e11 if make is gen.spd else 1.)
    if rng.randint(5) == 0:
        q, sh = np.round(q), np.diag(np.round(rng.uniform(0, 9, n)))
        if n > 1 and rng.randint(2):        # neighbouring coordinates connected
            sh = sh + 12. * np.eye(n) + np.diag(np.round(rng.uniform(-4, 4, n - 1)), 1) * 1.
            sh = np.triu(sh) + np.triu(sh, 1).T
    return Ellipsoid(q.copy(), sh.copy(), **kw), q, sh, kw


def make_hyp(rng, dim=None):
    kw = gen.settings(rng, True)
    n = gen.dim(rng, 7) if dim is None else dim
    v = gen.nzvec(rng, n)
    if rng.randint(4) == 0:
        v = np.round(v) + (np.arange(n) == rng.randint(n)) * 20.
    c = float(gen.pick(rng, 0., 0., rng.standard_normal(), 20 * rng.standard_normal(), rng.randint(-5, 6),
                       10. ** rng.uniform(-18, -5) * rng.choice([-1., 1.])))
    return Hyperplane(v.copy(), c, **kw), v, c, kw


def make_empty(rng):
    kw = gen.settings(rng, True)
    h = gen.pick(rng, lambda: Hyperplane(**kw), lambda: Hyperplane(np.zeros(0), **kw), lambda: Hyperplane(np.zeros(1), 0., **kw))()
    return h, np.zeros(0), 0., kw


def canonical(v, c):
    if np.size(v) == 0:
        return np.zeros(0), np.zeros(0)
    k = 1. / np.sqrt(np.sum(v * v))
    v, c = v * k, c * k
    if c < 0. or c == 0. and [x for x in v if x != 0.][0] < 0.:
        v, c = -v, -c
    return v, c


def numbers(text):
    return np.array([float(x) for x in NUM.findall(text)])


def shows(text, values):
    """The numbers occur in the text in their order, next to each other, at printing precision."""
    x = numbers(re.sub(r'float\d+|int\d+', ' ', text))
    v = np.asarray(values, dtype=float).flatten()
    if v.size == 0:
        return True
    # eight decimals when the largest number is at least one tenthousandth, eight digits of each or of the largest otherwise
    big = np.max(np.abs(v))
    tol = 2e-8 * big + 1e-8 * np.abs(v) + 1e-8 * (1e-4 <= big < 1)
    return any(np.all(np.abs(x[i:i + v.size] - v) <= tol) for i in range(x.size - v.size + 1))


def disturb(rng):
    if rng.randint(2):
        Properties.set_abs_tol(3e-7)
        Properties.set_rel_tol(2e-4)
        Properties.set_n_plot_2d_points(33)
        Properties.set_n_plot_3d_points(44)


def tables(m, names, descr, trans, fields, nice):
    m.check('tables', set(names) == set(fields) and set(descr) == set(fields) and set(trans) == set(fields),
            names=names, descr=descr, trans=sorted(trans), fields=fields)
    m.check('tables', all(isinstance(s, str) and s for s in list(names.values()) + list(descr.values())) and
            len(set(names.values())) == len(names) and len(set(descr.values())) == len(descr) and
            all(names[k] == v for k, v in nice.items()), names=names, descr=descr)


def settings(m, d, kw, keys):
    exp = {'abs_tol': 1e-6, 'rel_tol': 1e-5, 'n_plot_2d_points': 200, 'n_plot_3d_points': 200}
    exp.update(kw)
    m.check('settings', all(np.size(d[k]) == 1 and float(d[k]) == float(exp[k]) for k in keys), got=d, expected=exp)


def ellipsoids(m):
    rng = m.rng
    shp = gen.shape(rng)
    items = gen.alias(rng, [make_ell(rng) for _ in range(int(np.prod(shp)))])
    objs = [i[0] for i in items]
    disturb(rng)
    incl = bool(rng.randint(2))
    tol = gen.pick(rng, None, 1e-5, 1e-3)
    arr, names, descr, trans = Ellipsoid.to_dict(gen.as_arg(rng, objs, shp), incl, tol) if tol or rng.randint(2) else \
        Ellipsoid.to_dict(gen.as_arg(rng, objs, shp), is_prop_included=incl)
    m.need('fields', np.shape(arr) == tuple(shp) or shp == () and np.size(arr) == 1, got=np.shape(arr), shp=shp)
    fields = ['shape_mat', 'center_vec'] + (ELL_SET if incl else [])
    tables(m, names, descr, trans, fields, {'center_vec': 'q'})
    for d, (o, q, sh, kw) in zip(np.array(arr).flatten(), items):
        m.need('fields', isinstance(d, dict) and set(d) == set(fields), got=d, fields=fields)
        m.check('own-data', np.array_equal(d['shape_mat'], sh) and np.array_equal(d['center_vec'], q) and
                np.shape(d['center_vec']) == np.shape(q), got=d, center=q, shape=sh)
        if incl:
            settings(m, d, kw, ELL_SET)
        for k in fields:
            if k != 'shape_mat':
                m.check('unchanged-by-transform', np.array_equal(trans[k](d[k]), d[k]), field=k, got=d)
        if q.size:
            r = trans['shape_mat'](d['shape_mat'].copy())
            w, u = np.linalg.eigh(sh)
            s = max(1., np.max(np.abs(sh)))
            m.check('root', np.max(np.abs(r @ r - sh)) <= 1e-9 * s + 4e-6 * (tol is not None) and
                    np.max(np.abs(r - (u * np.sqrt(np.maximum(w, 0))) @ u.T)) <= 2e-6 * np.sqrt(s), got=r, shape=sh)
    i = rng.randint(len(objs))
    d, (o, q, sh, kw) = np.array(arr).flatten()[i], items[i]
    d['shape_mat'][...] = 8.
    d['center_vec'][...] = 8.
    a, b = o.parameters()
    m.check('independent', np.array_equal(a, q) and np.array_equal(b, sh), got=(a, b))
    printed(m, o, Ellipsoid, 'Ellipsoid', names, descr, ('shape_mat', 'center_vec'), (q, sh))
    m.sig([list(x[1:3]) for x in items], shp, incl, tol)
    m.sample(center=q, shape=sh, text=str(o))


def hyperplanes(m):
    rng = m.rng
    shp = gen.shape(rng)
    items = gen.alias(rng, [make_hyp(rng) for _ in range(int(np.prod(shp)))])
    if rng.randint(4) == 0:
        items[rng.randint(len(items))] = make_empty(rng)
    objs = [i[0] for i in items]
    disturb(rng)
    incl = bool(rng.randint(2))
    arr, names, descr, trans = Hyperplane.to_dict(gen.as_arg(rng, objs, shp), incl)
    m.need('fields', np.shape(arr) == tuple(shp) or shp == () and np.size(arr) == 1, got=np.shape(arr), shp=shp)
    fields = ['normal_vec', 'shift'] + (['abs_tol', 'rel_tol'] if incl else [])
    tables(m, names, descr, trans, fields, {'normal_vec': 'normal', 'shift': 'shift'})
    for d, (o, v, c, kw) in zip(np.array(arr).flatten(), items):
        m.need('fields', isinstance(d, dict) and set(d) == set(fields), got=d, fields=fields)
        ev, ec = canonical(v, c)
        if v.size == 0:
            m.check('canonical-empty', all(isinstance(d[k], np.ndarray) and d[k].size == 0 for k in ('normal_vec', 'shift')), got=d)
        else:
            m.check('canonical', np.shape(d['normal_vec']) == ev.shape and np.max(np.abs(d['normal_vec'] - ev)) <= 1e-14 and
                    np.size(d['shift']) == 1 and abs(float(d['shift']) - ec) <= 1e-13 * max(1., ec), got=d, expected=(ev, ec), normal=v, shift=c)
        if incl:
            settings(m, d, kw, ['abs_tol', 'rel_tol'])
        for k in fields:
            m.check('unchanged-by-transform', np.array_equal(trans[k](d[k]), d[k]), field=k, got=d)
    i = rng.randint(len(objs))
    o, v, c, kw = items[i]
    k = float(gen.pick(rng, -1., 2., -0.5, 16.))
    e = Hyperplane.to_dict([Hyperplane(k * v, k * c)])[0].flatten()[0]
    d = np.array(arr).flatten()[i]
    if v.size == 0:
        m.check('canonical-empty', np.size(e['normal_vec']) == 0 and np.size(e['shift']) == 0, got=e)
    else:
        m.check('canonical', np.max(np.abs(e['normal_vec'] - d['normal_vec'])) <= 1e-14 and
                abs(float(e['shift']) - float(d['shift'])) <= 1e-13 * max(1., abs(float(d['shift']))), got=e, expected=d, factor=k)
    ev, ec = canonical(v, c)
    printed(m, o, Hyperplane, 'Hyperplane', names, descr, ('normal_vec', 'shift'), (ev, ec))
    a, b = o.parameters()
    m.check('object-unchanged', np.array_equal(np.array(a).flatten()[:v.size], v) and float(np.array(b).flatten()[0]) == c, got=(a, b))
    m.sig([list(x[1:3]) for x in items], shp, incl)
    m.sample(normal=v, shift=c, text=str(o))


def own_tolerance(m):
    """Matrices valid only within the object's own tolerance."""
    rng = m.rng
    n = gen.dim(rng, 6)
    tol = float(10. ** rng.uniform(-5, -2))
    d = rng.uniform(0.5, 4., n)
    k = rng.randint(3)
    if k:
        d[rng.randint(n)] = -gen.pick(rng, 0.3, 0.6) * tol
    sh = np.diag(d)
    if k != 1 and n > 1:
        sh[0, n - 1] += 0.4 * tol * (k == 0)
    e = Ellipsoid(gen.center(rng, n), sh.copy(), abs_tol=tol)
    disturb(rng)
    arr, _, _, trans = Ellipsoid.to_dict([e] * int(rng.randint(1, 3)), bool(rng.randint(2)))
    for x in np.array(arr).flatten():
        m.check('own-data', np.array_equal(x['shape_mat'], sh), got=x, shape=sh)
        r = np.asarray(trans['shape_mat'](x['shape_mat'].copy()))
        m.check('root', r.shape == (n, n) and np.all(np.isfinite(r)) and np.max(np.abs(r @ r - np.diag(np.maximum(d, 0.)))) <= 4. * tol * n, got=r, shape=sh, tol=tol)
    # members of different tolerances: the transformation accepts each exported matrix
    objs, pos = [], []
    for _ in range(int(rng.randint(2, 5))):
        q, t, p = gen.loose(rng, gen.dim(rng, 5), -5, -2)
        if rng.randint(3) == 0:
            q, t = p + np.eye(len(p)), float(10. ** rng.uniform(-9, -6))
            p = q
        objs.append(Ellipsoid(gen.center(rng, len(q)), q, abs_tol=t))
        pos.append(p)
    arr, _, _, trans = Ellipsoid.to_dict(gen.as_arg(rng, objs, (len(objs),)), bool(rng.randint(2)))
    for x, o, p in zip(np.array(arr).flatten(), objs, pos):
        m.check('own-data', np.array_equal(x['shape_mat'], o.parameters()[1]), got=x, shape=o.parameters()[1])
        r = np.asarray(trans['shape_mat'](x['shape_mat'].copy()))
        m.check('root', r.shape == p.shape and np.all(np.isfinite(r)) and np.max(np.abs(r @ r - p)) <= 4e-2 * len(p), got=r, shape=x['shape_mat'])
    # a tolerance given explicitly decides, zero included
    t = float(gen.pick(rng, 0., 1e-9, 1e-6, 1e-4))
    trans = Ellipsoid.to_dict([Ellipsoid(np.eye(n))], bool(rng.randint(2)), t)[3]['shape_mat']
    bad = np.diag(rng.uniform(0.5, 4., n))
    i = rng.randint(n)
    bad[i, i] = -(1e-9 if t == 0. else 3. * t)
    m.raises('root', lambda: trans(bad.copy()), mat=bad, abs_tol=t)
    bad[i, i] = -0.3 * t
    r = trans(bad.copy())
    m.check('root', np.max(np.abs(r @ r - np.maximum(bad, 0.))) <= 1e-3, got=r, mat=bad, abs_tol=t)
    m.sig(sh, tol)


def printed(m, o, cls, name, names, descr, fields, values):
    conf = Properties.get_prop_dict() if hasattr(Properties, 'get_prop_dict') else None
    before = [np.array(x, dtype=float).copy() for x in o.parameters()]
    t = str(o)
    m.need('text-class', isinstance(t, str))
    m.check('text-class', name.lower() in t.lower(), text=t)
    other = {'Ellipsoid': 'hyperplane', 'Hyperplane': 'ellipsoid'}[name]
    m.check('text-class', other not in t.lower().split('data')[0], text=t)
    m.check('text-fields', all(names[f] in t and descr[f] in t for f in fields), text=t, names=names)
    for v in values:
        m.check('text-data', shows(t, v), text=t, value=v)
    m.check('text-equal-copies', str(cls.get_copy([o]).flatten()[0]) == t and str(o) == t, text=t)
    # text and formatting come from the same data
    m.check('text-data', '{}'.format(o) == t, text=t)
    # another object prints its own data
    if np.size(values[0]):
        p = cls(before[0] + 1., before[1]) if cls is Ellipsoid else cls(before[0].flatten() * 1. + 3., float(before[1].flatten()[0]) + 1.)
        if np.linalg.norm(np.array(p.parameters()[0])) > 0:
            w = p.parameters()[0] if cls is Ellipsoid else canonical(np.array(p.parameters()[0]).flatten(), float(np.array(p.parameters()[1]).flatten()[0]))[0]
            m.check('text-data', shows(str(p), w), text=str(p), value=w)
    after = [np.array(x, dtype=float) for x in o.parameters()]
    m.check('object-unchanged', all(np.array_equal(x, y) for x, y in zip(before, after)) and
            (conf is None or conf == Properties.get_prop_dict()), before=before, after=after)


CASES = [('large_ellipsoids', gen.large(ellipsoids, 12, 31), 12, 300), ('large_hyperplanes', gen.large(hyperplanes, 20, 70), 12, 300),
         ('crowd_ells', gen.crowded(ellipsoids, 300), 5, 100), ('crowd_hyps', gen.crowded(hyperplanes, 300), 5, 100),
         ('own_tolerance', own_tolerance, 60, 1200), ('ellipsoids', ellipsoids, 250, 6000), ('hyperplanes', hyperplanes, 250, 6000)]
