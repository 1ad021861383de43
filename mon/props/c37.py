"""C37  Operations on arrays of objects act element by element in every container."""
import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from .. import gen

RULE = ('collections of 1..12 ellipsoids or hyperplanes (full, degenerate, point, empty; of one or of several dimensions where '
        'the operation allows; with repeated objects) passed to every array operation as single object, list, tuple, nested '
        'list or tuple, object array of 1..3 dimensions, transposed, strided, reversed and zero-dimensional, compared element '
        'by element with the calls for the single objects; empty collections; collections with one foreign object; distinct '
        'by operation, container and content')
REQUIRED = ['element', 'layout', 'empty', 'foreign', 'new-objects', 'in-place']


def stack(objs, shp):
    return gen.obj_array(objs, shp)


def containers(rng, objs):
    """(form, container, objects in row-major order, shape of the container)."""
    k = len(objs)
    shapes = [(k,), (1, k), (k, 1), (1, k, 1)] + [(a, k // a) for a in range(2, k) if k % a == 0] + \
        [(a, b, k // a // b) for a in (2, 3) for b in (1, 2, 3) if k % (a * b) == 0]
    shp = shapes[rng.randint(len(shapes))]
    form = gen.pick(rng, 'list', 'tuple', 'nested', 'nestedtuple', 'array', 'array', 'T', 'step', 'rev', 'F', 'mixed', 'view')
    a = stack(objs, shp)
    if form == 'list':
        return form, list(objs), objs, (k,)
    if form == 'tuple':
        return form, tuple(objs), objs, (k,)
    if form == 'nested':
        return form, a.tolist(), objs, shp
    if form == 'nestedtuple':
        def tup(x):
            return tuple(tup(y) for y in x) if isinstance(x, list) else x
        return form, tup(a.tolist()), objs, shp
    if form == 'mixed':
        return form, [tuple(r) if i % 2 else list(r) for i, r in enumerate(stack(objs, (1, k) if len(shp) != 2 else shp))], objs, \
            ((1, k) if len(shp) != 2 else shp)
    if form == 'T':
        a = a.T
    elif form == 'step':
        big = np.empty((2 * k,), dtype=object)
        for i, o in enumerate(objs):
            big[2 * i], big[2 * i + 1] = o, objs[0]
        a = big[::2]
    elif form == 'rev':
        a = a[::-1]
    elif form == 'F':
        a = np.asfortranarray(a)
    elif form == 'view':
        pad = np.empty((shp[0] + 2,) + tuple(shp[1:]), dtype=object)
        pad[...] = objs[0]
        pad[1:-1] = a
        a = pad[1:-1]
    return form, a, list(a.flatten()), a.shape


def ellipsoid(rng, n, kind=None):
    kw = gen.settings(rng)
    kind = gen.pick(rng, 'full', 'full', 'full', 'deg', 'point') if kind is None else kind
    if kind == 'empty':
        return Ellipsoid(**kw)
    sh = gen.psd(rng, n) if kind == 'deg' else np.zeros((n, n)) if kind == 'point' else gen.spd(rng, n)
    return Ellipsoid(gen.center(rng, n), sh, **kw)


def hyperplane(rng, n):
    return Hyperplane(gen.nzvec(rng, n), gen.pick(rng, 0., float(rng.standard_normal()), 5.), **gen.settings(rng, True))


def data(x):
    """Everything an element of a result shows, as a flat list of comparable things."""
    if isinstance(x, (Ellipsoid, Hyperplane)):
        p = x.parameters()
        res = [np.array(p[0], dtype=float), np.array(p[1], dtype=float),
               np.array(type(x).get_abs_tol([x], None)[0], dtype=float), np.array(type(x).get_rel_tol([x], None)[0], dtype=float)]
        if isinstance(x, Ellipsoid):
            res += [np.array(Ellipsoid.get_n_plot_2d_points([x]), dtype=float), np.array(Ellipsoid.get_n_plot_3d_points([x]), dtype=float)]
        return res
    if isinstance(x, dict):
        return [np.array(x[k], dtype=float) for k in sorted(x)]
    return [np.array(x, dtype=float)]


def same(a, b):
    a, b = data(a), data(b)
    return len(a) == len(b) and all(
        np.size(x) == np.size(y) and np.allclose(x.flatten(), y.flatten(), rtol=1e-9, atol=1e-12, equal_nan=True) for x, y in zip(a, b))


def basis(rng, n):
    return gen.orth(rng, n)[:, :rng.randint(1, n + 1)] * np.exp(rng.uniform(-1, 1))


# name, call, keeps the shape, kinds of ellipsoids the operation is defined for, several dimensions allowed
def ell_ops(rng, n):
    b = basis(rng, n)
    l = gen.nzvec(rng, n)
    prop = gen.pick(rng, 'abs_tol', 'rel_tol', 'n_plot_2d_points', 'n_plot_3d_points')
    incl = bool(rng.randint(2))
    return [
        ('volume', Ellipsoid.volume, False, ('full', 'deg', 'point'), True),
        ('trace', Ellipsoid.trace, False, ('full', 'deg', 'point'), True),
        ('min_eig', Ellipsoid.min_eig, False, ('full', 'deg', 'point'), True),
        ('max_eig', Ellipsoid.max_eig, False, ('full', 'deg', 'point'), True),
        ('dimension', lambda x: Ellipsoid.dimension(x), True, ('full', 'deg', 'point', 'empty'), True),
        ('rank', lambda x: Ellipsoid.dimension(x, return_rank=True)[1], True, ('full', 'deg', 'point', 'empty'), True),
        ('is_degenerate', Ellipsoid.is_degenerate, True, ('full', 'deg', 'point'), True),
        ('is_empty', Ellipsoid.is_empty, True, ('full', 'deg', 'empty'), True),
        ('abs_tol', lambda x: Ellipsoid.get_abs_tol(x, None), False, ('full', 'deg', 'empty'), True),
        ('rel_tol', lambda x: Ellipsoid.get_rel_tol(x, None), False, ('full', 'deg', 'empty'), True),
        ('n2d', Ellipsoid.get_n_plot_2d_points, False, ('full', 'deg', 'empty'), True),
        ('n3d', Ellipsoid.get_n_plot_3d_points, False, ('full', 'deg', 'empty'), True),
        ('property', lambda x: Ellipsoid.get_property(x, prop)[0], False, ('full', 'deg', 'empty'), True),
        ('polar', Ellipsoid.polar, True, ('around',), True),
        ('uminus', Ellipsoid.uminus, True, ('full', 'deg', 'point'), True),
        ('get_projection', lambda x: Ellipsoid.get_projection(x, b), True, ('full', 'deg', 'point'), False),
        ('get_copy', Ellipsoid.get_copy, True, ('full', 'deg', 'point', 'empty'), True),
        ('to_dict', lambda x: Ellipsoid.to_dict(x, incl)[0], True, ('full', 'deg', 'point', 'empty'), True),
        ('rho', lambda x: Ellipsoid.rho(x, l.reshape(-1, 1))[0], True, ('full', 'deg', 'point'), False),
    ]


def hyp_ops(rng, n):
    x0 = gen.vec(rng, n)
    incl = bool(rng.randint(2))
    prop = gen.pick(rng, 'abs_tol', 'rel_tol')
    return [
        ('dimension', lambda x: Hyperplane.dimension(x), True, True),
        ('is_empty', Hyperplane.is_empty, True, True),
        ('abs_tol', lambda x: Hyperplane.get_abs_tol(x, None), False, True),
        ('rel_tol', lambda x: Hyperplane.get_rel_tol(x, None), False, True),
        ('property', lambda x: Hyperplane.get_property(x, prop)[0], False, True),
        ('uminus', Hyperplane.uminus, True, True),
        ('get_copy', Hyperplane.get_copy, True, True),
        ('to_dict', lambda x: Hyperplane.to_dict(x, incl)[0], True, True),
        ('contains', lambda x: Hyperplane.contains(x, x0.reshape(-1, 1)), True, False),
    ]


def compare(m, rng, name, call, objs, keeps):
    singles = []
    for o in objs:
        r = np.asarray(call([o]))
        m.need('layout', r.size == 1, op=name, got=r)
        singles.append(r.flatten()[0])
    by = {id(o): s for o, s in zip(objs, singles)}
    for _ in range(3):
        form, c, order, shp = containers(rng, objs)
        got = np.asarray(call(c))
        m.need('layout', got.shape == tuple(shp) if keeps and (name != 'rho' or len(order) > 1) else got.size == 1 or got.shape in (tuple(shp), (len(order),)), op=name, form=form, got=got.shape, shape=shp)
        g = got.flatten()
        for i, o in enumerate(order):
            m.check('element', same(g[i], by[id(o)]), op=name, form=form, place=i, shape=shp, got=g[i], single=by[id(o)])
        m.sig(name, form, shp, [data(o)[:2] for o in order])
        if isinstance(g[0], (Ellipsoid, Hyperplane)):
            m.check('new-objects', len({id(x) for x in g}) == len(g) and not {id(x) for x in g} & {id(o) for o in objs}, op=name, form=form)
    for f in (objs[0], stack(objs[:1], ())):
        r = np.asarray(call(f)).flatten()
        m.check('element', r.size == 1 and same(r[0], singles[0]), op=name, form='single', got=r)
    e = gen.pick(rng, ((0,), []), ((0,), ()), ((0,), stack([], (0,))), ((0, 3), stack([], (0, 3))), ((2, 0), stack([], (2, 0))))
    if name not in ('rho', 'contains'):
        r = np.asarray(call(e[1]))
        m.check('empty', r.size == 0 and (not keeps or r.shape == e[0]), op=name, got=r, shape=e[0])
    for _ in range(2):
        bad = list(objs)
        other = hyperplane(rng, 2) if isinstance(objs[0], Ellipsoid) else ellipsoid(rng, 2, 'full')
        alien = gen.pick(rng, other, None, 1.5, 'text', {'shape_mat': 1}, np.array([other, other], dtype=object)[0])
        place = rng.randint(len(bad) + 1)
        bad.insert(place, alien)
        c = gen.pick(rng, bad, stack(bad, (len(bad),)), stack(bad, (1, len(bad))))
        m.raises('foreign', lambda: call(c), op=name, alien=alien, place=place)
    m.sample(op=name, n=len(objs))


def make(rng, n, kinds, several):
    k = gen.pick(rng, 1, 2, 3, 4, 4, 6, 6, 8, 9, 12) if rng.randint(12) else rng.randint(20, 120)
    res = []
    for _ in range(k):
        d = rng.randint(1, 5) if several else n
        kind = kinds[rng.randint(len(kinds))]
        if kind == 'around':
            res.append(Ellipsoid(0.05 * gen.vec(rng, d, 0.5), gen.spd(rng, d, 2., 6.), **gen.settings(rng)))
        else:
            res.append(ellipsoid(rng, d, kind))
    return gen.alias(rng, res, 0.3)


def ellipsoids(m):
    rng = m.rng
    n = gen.dim(rng, 5)
    ops = ell_ops(rng, n)
    name, call, keeps, kinds, several = ops[m.index % len(ops)]
    compare(m, rng, name, call, make(rng, n, kinds, several and rng.randint(2)), keeps)


def hyperplanes(m):
    rng = m.rng
    n = gen.dim(rng, 5)
    ops = hyp_ops(rng, n)
    name, call, keeps, several = ops[m.index % len(ops)]
    k = gen.pick(rng, 1, 2, 3, 4, 4, 6, 6, 8, 9, 12) if rng.randint(12) else rng.randint(20, 120)
    d = several and rng.randint(2)
    compare(m, rng, name, call, gen.alias(rng, [hyperplane(rng, rng.randint(1, 5) if d else n) for _ in range(k)], 0.3), keeps)


def crowd(m):
    """Hundreds of objects."""
    rng = m.rng
    n = gen.dim(rng, 3)
    ell = m.index % 2 == 0
    ops = ell_ops(rng, n) if ell else [x[:3] + (None,) + x[3:] for x in hyp_ops(rng, n)]
    name, call, keeps, kinds, _ = ops[rng.randint(len(ops))]
    k = int(rng.randint(257, 700))
    if not ell:
        objs = [hyperplane(rng, n) for _ in range(k)]
    elif kinds == ('around',):
        objs = [Ellipsoid(0.05 * gen.vec(rng, n, 0.5), gen.spd(rng, n, 2., 6.), **gen.settings(rng)) for _ in range(k)]
    else:
        objs = [ellipsoid(rng, n, kinds[rng.randint(len(kinds))]) for _ in range(k)]
    got = np.asarray(call(gen.pick(rng, objs, stack(objs, (k,))))).flatten()
    m.need('layout', got.size == k, op=name, got=got.shape, k=k)
    for i in set(rng.randint(0, k, 25).tolist() + [0, 255, 256, k - 1]):
        one = np.asarray(call([objs[i]])).flatten()[0]
        m.check('element', same(got[i], one), op=name, form='crowd', place=i, size=k, got=got[i], single=one)
    m.sig(name, k, [data(o)[:2] for o in objs[:3]])


def in_place(m):
    """In-place projection changes every object of the array once, and hands back the same objects in place."""
    rng = m.rng
    n = gen.dim(rng, 6)
    k = gen.pick(rng, 1, 2, 3, 4, 6)
    objs = [ellipsoid(rng, n) for _ in range(k)]
    b = basis(rng, n)
    expected = [Ellipsoid.get_projection([o], b).flatten()[0] for o in objs]
    form, c, order, shp = containers(rng, objs)
    if form == 'step':
        c, order, shp = stack(objs, (k,)), objs, (k,)
    by = {id(o): e for o, e in zip(objs, expected)}
    got = Ellipsoid.projection(c, b)
    m.check('in-place', np.shape(got) == tuple(shp) and all(x is y for x, y in zip(np.array(got).flatten(), order)), form=form, got=got)
    for o in order:
        e = by[id(o)]
        m.check('in-place', all(np.allclose(x, y, rtol=1e-9, atol=1e-12) for x, y in zip(o.parameters(), e.parameters())),
                form=form, got=o.parameters(), expected=e.parameters())
    m.sig(form, shp, b, [e.parameters() for e in expected])


def pairs(m):
    """Two-collection operations pair equal places, or the one element with every place."""
    rng = m.rng
    n = gen.dim(rng, 5)
    k = gen.pick(rng, 2, 3, 4, 6) if rng.randint(12) else rng.randint(20, 90)
    mode = m.index % 6
    if mode < 3:
        pool = [ellipsoid(rng, n) for _ in range(2)]
        pool += [Ellipsoid(pool[0].parameters()[0] + 1e-3, pool[0].parameters()[1])]
        cls = Ellipsoid
    else:
        pool = [hyperplane(rng, n) for _ in range(2)]
        q, c = pool[0].parameters()
        pool += [Hyperplane(-2. * np.array(q).flatten(), -2. * float(np.array(c).flatten()[0])), Hyperplane(np.array(q).flatten(), 7.)]
        cls = Hyperplane
    op = gen.pick(rng, 'eq', 'ne', 'is_equal', *(['is_parallel'] if cls is Hyperplane else []))
    # ne of one pair is a scalar; all others are arrays
    func = getattr(cls, op)
    call = (lambda a, b: func(a, b)) if op == 'is_parallel' else (lambda a, b: func(a, b)[0])
    first = [pool[rng.randint(len(pool))] for _ in range(k)]
    second = [pool[rng.randint(len(pool))] for _ in range(k)]
    table = {}
    for a in pool:
        for b in pool:
            table[id(a), id(b)] = bool(np.asarray(call([a], [b])).flatten()[0])
    f1, c1, o1, s1 = containers(rng, first)
    a2 = stack(second, s1)
    got = np.asarray(call(c1, gen.pick(rng, a2, a2.tolist(), np.asfortranarray(a2))))
    m.need('layout', got.shape == tuple(s1), op=op, form=f1, got=got.shape, shape=s1)
    m.check('element', all(bool(g) == table[id(a), id(b)] for g, a, b in zip(got.flatten(), o1, second)), op=op, form=f1, got=got,
            expected=[table[id(a), id(b)] for a, b in zip(o1, second)])
    one = second[0]
    got = np.asarray(call(c1, gen.pick(rng, [one], (one,), stack([one], (1, 1)), stack([one], ()))))
    m.check('element', got.size == k and all(bool(g) == table[id(a), id(one)] for g, a in zip(got.flatten(), o1)), op=op, got=got,
            form=f1 + '-one')
    got = np.asarray(call([one], c1))
    m.check('element', got.size == k and all(bool(g) == table[id(one), id(a)] for g, a in zip(got.flatten(), o1)), op=op, got=got,
            form='one-' + f1)
    wrong = second + [one] if rng.randint(2) else second[:-1]
    if len(wrong) > 1:
        m.raises('foreign', lambda: call(c1, wrong), op=op, sizes=(s1, len(wrong)))
    alien = gen.pick(rng, None, 2., 'x', ellipsoid(rng, n) if cls is Hyperplane else hyperplane(rng, n))
    m.raises('foreign', lambda: call(c1, stack(second[:-1] + [alien], s1)), op=op, alien=alien)
    m.sig(op, f1, s1, [table[id(a), id(b)] for a, b in zip(o1, second)], [data(o)[:2] for o in pool])


CASES = [('crowd', crowd, 40, 800), ('ellipsoids', ellipsoids, 400, 8000), ('hyperplanes', hyperplanes, 180, 4000), ('in-place', in_place, 80, 2000),
         ('pairs', pairs, 150, 4000)]
