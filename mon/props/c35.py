"""C35  Membership lookup and numeric classification agree with definition."""
import array
import numpy as np
from ellipy.gen.common.common import is_member, is_numeric
from .. import gen

RULE = ('random pairs of collections (numbers, text, booleans, mixed sizes, duplicates, empty) as lists, tuples and arrays, '
        'judged by a linear search; values of every kind for the numeric test; distinct by content')
REQUIRED = ['member', 'position', 'numeric', 'not-numeric']


def collection(rng, kind, n):
    if kind == 0:
        return rng.randint(-3, 6 if n < 20 else 300, n).tolist()
    if kind == 1:
        return rng.choice([0.5, -1.25, 3., 1e-9, 1e9, 7.75, 0.], n).tolist()
    if kind == 2:
        return [str(x) for x in rng.choice(['a', 'b', 'abc', 'abs_tol', 'rel_tol', '', 'B'], n)]
    return [bool(x) for x in rng.randint(0, 2, n)]


def form(rng, xs, kind):
    k = rng.randint(3)
    if not xs:
        return np.array(xs, dtype=[int, float, '<U3', bool][kind]) if k else []
    return np.array(xs) if k == 0 else xs if k == 1 else tuple(xs)


def mixed(m):
    """Numbers of different types, fractions among whole numbers, long second collections."""
    rng = m.rng
    whole = rng.randint(-4, 5, rng.randint(1, 12))
    frac = np.round(rng.uniform(-4, 4, rng.randint(1, 12)) * 4) / 4. if rng.randint(3) else rng.choice([1.5, 2., 2.999999, -0.5, 0., np.inf, -np.inf, 3.], 8)
    a, b = (frac, whole) if rng.randint(2) else (whole, frac)
    if rng.randint(4) == 0:
        a, b = gen.pick(rng, (np.array([True, False]), whole), (whole, np.array([True])), (frac, np.array([False, True])))
    if rng.randint(3) == 0:
        a, b = a.astype(gen.pick(rng, 'f4', 'f8')), b.astype(gen.pick(rng, 'f8', 'f4')) if b.dtype.kind == 'f' else b.astype('i2')
    al, bl = a.tolist(), b.tolist()
    is_in, pos = is_member(gen.pick(rng, a, al, tuple(al)), gen.pick(rng, b, bl, tuple(bl)))
    where = [bl.index(x) for x in al if x in bl]
    m.check('member', is_in.tolist() == [x in bl for x in al], a=a, b=b, got=is_in)
    m.check('position', np.asarray(pos).tolist() == where, a=a, b=b, got=pos, expected=where)
    # text that begins alike
    words = ['a', 'ab', 'abc', 'abcd', 'abcde', 'b', 'ba', '', ' ', 'a ', 'A']
    al = [words[i] for i in rng.randint(0, len(words), rng.randint(1, 8))]
    bl = [words[i] for i in rng.randint(0, len(words), rng.randint(1, 8))]
    is_in, pos = is_member(gen.pick(rng, al, np.array(al)), gen.pick(rng, bl, np.array(bl)))
    m.check('member', is_in.tolist() == [x in bl for x in al], a=al, b=bl, got=is_in)
    m.check('position', np.asarray(pos).tolist() == [bl.index(x) for x in al if x in bl], a=al, b=bl, got=pos)
    if m.index % 10 == 0:
        n = int(gen.pick(rng, 300, 33000, 70000))
        p = rng.permutation(n)
        x = rng.randint(-5, n + 5, 30)
        is_in, pos = is_member(x, p)
        inv = np.argsort(p)
        m.check('member', np.array_equal(is_in, (x >= 0) & (x < n)), a=x, n=n)
        m.check('position', np.array_equal(pos, inv[x[(x >= 0) & (x < n)]]), a=x, n=n, got=pos)
        is_in, pos = is_member(p, np.sort(x))
        y = np.sort(x).tolist()
        m.check('member', np.array_equal(is_in, np.isin(p, x)), n=n)
        m.check('position', np.asarray(pos).tolist() == [y.index(z) for z in p.tolist() if z in y], n=n, got=pos)
    m.sig(a, b, al, bl)


def member(m):
    rng = m.rng
    kind = int(rng.randint(4))
    size = (lambda: int(gen.pick(rng, 0, 1, 2, 5, 12))) if rng.randint(12) else (lambda: int(rng.randint(0, 400)))
    a, b = collection(rng, kind, size()), collection(rng, kind, size())
    if kind == 0 and rng.randint(4) == 0:
        b = [float(x) for x in b]
    is_in, pos = is_member(form(rng, a, kind), form(rng, b, kind))
    exp = [x in b for x in a]
    where = [b.index(x) for x in a if x in b]
    m.check('member', isinstance(is_in, np.ndarray) and is_in.dtype == bool and is_in.tolist() == exp, a=a, b=b, got=is_in)
    m.check('position', isinstance(pos, np.ndarray) and pos.shape == (len(where),) and pos.tolist() == where, a=a, b=b,
            got=pos, expected=where)
    if a and rng.randint(3) == 0:
        # two-dimensional first collection: same classification, positions in row order
        x = np.array(a)
        shp = [s for s in ((len(a), 1), (1, len(a)), (2, -1), (-1, 2), (2, 2, -1), (-1, 2, 2), (2, -1, 3), (1, -1, 2, 1))
               if len(a) % abs(int(np.prod(s))) == 0 or s in ((len(a), 1), (1, len(a)))]
        x = x.reshape(shp[rng.randint(len(shp))])
        if rng.randint(3) == 0:              # any layout in memory
            x = np.asfortranarray(x)
        i2, p2 = is_member(x, np.array(b) if b else np.array(b, dtype=x.dtype))
        m.check('member', i2.shape == x.shape and i2.flatten().tolist() == exp, a=x, b=b, got=i2)
        m.check('position', p2.tolist() == where, a=x, b=b, got=p2, expected=where)
    m.sig(a, b)
    m.sample(a=a, b=b)


class Thing:
    pass


def numeric(m):
    rng = m.rng
    n = int(rng.randint(0, 5))
    good = [True, False, 3, -2, 2.5, np.nan, np.inf, 1j, np.bool_(True), np.int8(3), np.uint16(7), np.float32(1.5),
            np.complex64(1j), [1, 2], [1, 2.5], (True, 2), [[1, 2], [3, 4]], [1j, 2], [],
            np.zeros(n), np.zeros((n, 2), int), np.ones(n, bool), np.ones((1, n), complex), np.zeros((0, 3)),
            np.array(5), np.array(2.5), np.zeros(n, np.uint8), np.float16(3), range(n), range(2, 5), array.array('d', [1., 2.]),
            array.array('i', [3]), [np.float64(1), 2], [np.zeros(2), [1, 2]], ((1,), (2,)), [range(2), range(2)], 10 ** 15, -0.0,
            np.zeros((2, n), order='F')[:, ::-1], np.zeros(3).view(np.matrix) if n else 1]
    bad = ['a', '', '1', '3.5', b'1', None, Thing(), {}, {'a': 1}, {1, 2}, ['1', '2'], [1, 'a'], [None, 1.], [Thing()], len,
           np.array(['1']), np.array([None]), np.array([1, 2], dtype=object), np.array('2020-01-01', 'M8[D]'),
           np.array(3, 'm8[s]'), np.zeros(n, dtype='U3'), np.zeros(n, dtype=object), np.zeros(2, dtype=[('a', int)]),
           {'a': 1}.keys(), iter([1]), (None,), frozenset([1]), {1: 2}.values(), [{}], [range(2), 'a'], lambda: 1, Ellipsis, 10 ** 30,
           type(1), [[1, 2], ['a', 'b']], 'nan', 'inf', b'']
    for x in good:
        r = is_numeric(x)
        m.check('numeric', bool(r) and isinstance(r, (bool, np.bool_)), value=x, got=r)
    for x in bad:
        r = is_numeric(x)
        m.check('not-numeric', not r and isinstance(r, (bool, np.bool_)), value=x, got=r)
    x = rng.standard_normal((n, 3)).astype(gen.pick(rng, 'f2', 'f4', 'f8', 'i4', 'u1', '?', 'c8'))
    m.check('numeric', is_numeric(x) and is_numeric(x.tolist()), value=x)
    m.check('not-numeric', not is_numeric(x.astype(object)), value=x)
    deep = np.asarray(x.flat[0] if x.size else 1.5).reshape((1,) * int(rng.randint(4, 9)))
    m.check('numeric', is_numeric(deep) and is_numeric(np.zeros((2, 0, 1, 3, 1))) and is_numeric(deep.tolist()), value=deep)
    m.check('not-numeric', not is_numeric(deep.astype(object)) and not is_numeric(deep.astype(str)), value=deep)
    m.sig(x)


CASES = [('mixed', mixed, 300, 8000), ('member', member, 1500, 40000), ('numeric', numeric, 40, 400)]
