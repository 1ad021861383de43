"""C22  Time-dependent expressions evaluate point by point."""
import math
import numpy as np
from ellipy.gras.gen.gen import MatVector
from .. import gen

RULE = ('random expressions over t (arithmetic, powers, elementary functions, constants) in scalar, row, column and matrix '
        'layouts and in one- and two-dimensional formula arrays, and functions returning scalars, lists, vectors and '
        'matrices, at 1..6 time points given as number, list or array; every entry evaluated on its own with the standard '
        'library; distinct by content')
REQUIRED = ['expression', 'formula-matrix', 'function', 'shape', 'rejected']
ENV = {k: getattr(math, k) for k in ('sin', 'cos', 'exp', 'sqrt', 'pi', 'tanh', 'floor', 'fabs')}
ENV['abs'] = abs
ENV['__builtins__'] = {}


def expr(rng, depth, const=False):
    k = rng.randint(8)
    if depth == 0 or k == 0:
        c = gen.pick(rng, '1', '2', '0', '0.5', '3.25', '1e-2', 'pi')
        return c if const or rng.randint(3) == 0 else 't'
    a = expr(rng, depth - 1, const)
    if k == 1:
        return '%s(%s)' % (gen.pick(rng, 'sin', 'cos', 'tanh', 'abs', 'fabs'), a)
    if k == 2:
        return 'exp(-abs(%s))' % a
    if k == 3:
        return '(%s)**%d' % (a, rng.randint(0, 4))
    if k == 4 and rng.randint(3) == 0:      # also of whole numbers
        return '(1 + abs(%s))**-%d' % (a, rng.randint(1, 4))
    if k == 4:
        return '-(%s)' % a
    if k == 5:
        return 'sqrt(1 + (%s)**2)' % a
    b = expr(rng, depth - 1, const)
    if k == 6:
        return '(%s)/(1 + abs(%s))' % (a, b)
    return '(%s) %s (%s)' % (a, gen.pick(rng, '+', '-', '*'), b)


def entry(rng):
    return expr(rng, rng.randint(0, 4), rng.randint(4) == 0)


def ref(e, t):
    return float(eval(e, dict(ENV), {'t': float(t)}))


def times(rng):
    n = gen.pick(rng, 1, 1, 2, 3, 6) if rng.randint(12) else rng.randint(7, 200)
    t = rng.uniform(-2, 2, n)
    if rng.randint(4) == 0:
        t = rng.randint(-3, 4, n)
    if n > 2 and rng.randint(3) == 0:                # repeated points, out of order
        t[-1] = t[0]
    if n == 1 and rng.randint(2):
        return t, gen.pick(rng, float(t[0]), t[0], int(t[0]) if t[0] == int(t[0]) else float(t[0]))
    return t, gen.pick(rng, t.copy(), t.copy(), t.tolist(), t.reshape(-1, 1).copy())


def judge(m, mech, got, rows, t, **kw):
    exp = np.array([[[ref(e, x) for x in t] for e in r] for r in rows])
    if not m.check('shape', np.shape(got) == exp.shape, op=mech, got=np.shape(got), expected=exp.shape, rows=rows, t=t, **kw):
        return
    ok = False
    if isinstance(got, np.ndarray) and got.dtype.kind in 'fiu':
        ok = bool(np.all(np.abs(got - exp) <= 1e-9 * np.maximum(1., np.abs(exp))))
    m.check(mech, ok, got=got, expected=exp, rows=rows, t=t, **kw)


def text(m):
    rng = m.rng
    t, arg = times(rng)
    k = rng.randint(4)
    if k == 0:
        rows = [[entry(rng)]]
        s = rows[0][0]
    elif k == 1:
        rows = [[entry(rng) for _ in range(rng.randint(1, 5))]]
        s = '[' + ', '.join(rows[0]) + ']'
    else:
        r, c = rng.randint(1, 4), rng.randint(1, 4)
        if k == 2:
            c = 1
        rows = [[entry(rng) for _ in range(c)] for _ in range(r)]
        s = '[' + gen.pick(rng, ', ', ',').join('[' + gen.pick(rng, ', ', ',').join(x) + ']' for x in rows) + ']'
    judge(m, 'expression', MatVector.from_expression(s, arg), rows, t, text=s)
    m.sig(s, t)
    m.sample(text=s, t=t)


def formulas(m):
    rng = m.rng
    t, arg = times(rng)
    r, c = rng.randint(1, 5), rng.randint(1, 5)
    rows = [[entry(rng) for _ in range(c)] for _ in range(r)]
    x = np.array(rows) if rng.randint(2) else np.array(rows, dtype=object)
    if rng.randint(4) == 0:
        rows = [[row[0]] for row in rows]
        x = x[:, 0].copy()
        x = x if rng.randint(2) else x.tolist()
    judge(m, 'formula-matrix', MatVector.from_formula_mat(x, arg), rows, t)
    m.sig(rows, t)


def functions(m):
    rng = m.rng
    t, arg = times(rng)
    k = rng.randint(5)
    r, c = rng.randint(1, 5), rng.randint(1, 5)
    w = rng.standard_normal((r, c))
    if k == 0:
        f, exp = (lambda s: s * w[0, 0] + 1.), (lambda s: np.array([[s * w[0, 0] + 1.]]))
    elif k == 1:
        f, exp = (lambda s: np.cos(s) * w[:, 0]), (lambda s: math.cos(s) * w[:, :1])
    elif k == 2:
        f, exp = (lambda s: (s * w[:, 0]).tolist()), (lambda s: s * w[:, :1])
    elif k == 3:
        f, exp = (lambda s: np.array(w > 0, dtype=int) + int(np.floor(s))), (lambda s: (w > 0) + math.floor(s))
    else:
        f, exp = (lambda s: w * s ** 2 - w), (lambda s: w * s * s - w)
    if rng.randint(4) == 0:                  # the function fills and returns one and the same array
        g, buf = f, np.zeros(np.shape(np.asarray(f(0.))))
        if buf.ndim:
            def f(s):
                buf[...] = g(s)
                return buf
    got = MatVector.from_func(f, arg)
    e = np.stack([np.asarray(exp(float(x)), dtype=float) for x in t], axis=2)
    m.check('shape', np.shape(got) == e.shape, got=np.shape(got), expected=e.shape)
    m.close('function', got, e, 1e-12, kind=k, t=t, w=w)
    m.sig(k, w, t)


def rejected(m):
    m.raises('rejected', lambda: MatVector.from_expression('', 1.), 'non-empty')
    m.raises('rejected', lambda: MatVector.from_expression('', np.arange(3.)), 'non-empty')
    m.raises('rejected', lambda: MatVector.from_formula_mat(np.array([['t', '']]), np.arange(3.)), 'non-empty')
    m.raises('rejected', lambda: MatVector.from_formula_mat(np.array(['']), 1.), 'non-empty')
    m.sig(m.index)


CASES = [('text', text, 500, 12000), ('formulas', formulas, 250, 6000), ('functions', functions, 250, 6000),
         ('rejected', rejected, 3, 6)]
