"""C29  Symbolic substitution and dependence follow expression meaning."""
import math
import numpy as np
from ellipy.gras.sym.sym import is_dependent, var_replace
from .. import gen

RULE = ('random matrices of formulas over variables whose names contain one another (t, tt, t1, at, T, k, kt, s_t), functions '
        'and numbers, mixed with numeric entries, substituted by random expressions and evaluated at random points with the '
        'standard library; dependence judged by a tokenizer; distinct by content')
REQUIRED = ['meaning', 'untouched', 'shape', 'numbers', 'dependent', 'independent', 'rejected', 'repeated']
NAMES = ['t', 'tt', 't1', 'at', 'T', 'k', 'kt', 's_t', 't_s', '_t', 'x', 'xt', 'k2', 'tan_t', 'sin_k', 'e']
ENV = {n: getattr(math, n) for n in ('sin', 'cos', 'exp', 'sqrt', 'tanh', 'atan', 'pi')}
ENV['abs'] = abs
ENV['__builtins__'] = {}


def expr(rng, depth, names):
    k = rng.randint(9)
    if depth == 0 or k == 0:
        return str(rng.choice(names)) if rng.randint(3) else gen.pick(rng, '1', '2', '0.5', '1e-2', '3.', '12')
    a = expr(rng, depth - 1, names)
    if k == 1:
        return '%s(%s)' % (gen.pick(rng, 'sin', 'cos', 'tanh', 'atan', 'abs'), a)
    if k == 2:
        return '-%s' % a if a[0] != '-' else '(%s)' % a
    if k == 3:
        return '(%s)**%d' % (a, rng.randint(1, 3))
    if k == 4:
        return a + gen.pick(rng, '**2', '*3', '/2', '-1', ' + 1')
    b = expr(rng, depth - 1, names)
    s = gen.pick(rng, '', ' ')
    if k == 5:
        return '(%s)/(2%s+%sabs(%s))' % (a, s, s, b)
    if k == 6:
        return '(%s%s-%s%s)' % (a, s, s, b)
    return '%s%s%s%s%s' % (a, s, gen.pick(rng, '+', '*', '-'), s, b if b[0] != '-' else '(%s)' % b)


def evaluate(e, env):
    try:
        return float(eval(e, dict(ENV), env))
    except (OverflowError, ValueError, ZeroDivisionError):
        return None


def tokens(s):
    """Identifiers of a formula; digits followed by letters (1e-2) belong to numbers."""
    res, i = [], 0
    while i < len(s):
        c = s[i]
        if c.isalpha() or c == '_':
            j = i
            while j < len(s) and (s[j].isalnum() or s[j] == '_'):
                j += 1
            res.append(s[i:j])
            i = j
        elif c.isdigit() or c == '.':
            j = i
            while j < len(s) and (s[j].isalnum() or s[j] == '.' or s[j] in '+-' and s[j - 1] in 'eE'):
                j += 1
            i = j
        else:
            i += 1
    return res


def shape(rng):
    if rng.randint(20) == 0:
        return gen.pick(rng, (9, 9), (70,), (5, 4, 5))
    return gen.pick(rng, (1,), (3,), (2, 2), (1, 3), (3, 1), (2, 3), (1, 1), (2, 1, 2), ())


def matrix(rng, names):
    shp = shape(rng)
    n = int(np.prod(shp))
    k = rng.randint(4)
    if rng.randint(25) == 0:                # formulas in which names occur many times
        es = [gen.pick(rng, '+', ' - ').join(expr(rng, 1, names) for _ in range(rng.randint(8, 60))).replace('- -', '-') for _ in range(n)]
        return np.array(es).reshape(shp), es
    if k < 2:
        es = [expr(rng, rng.randint(0, 4), names) for _ in range(n)]
        a = np.array(es).reshape(shp) if k else gen.obj_array(es, shp)
        return a, es
    if k == 2:
        es = [expr(rng, rng.randint(0, 3), names) if rng.randint(2) else number(rng) for _ in range(n)]
        return gen.obj_array(es, shp), es
    a = np.asarray(rng.uniform(-9, 9, shp) if rng.randint(2) else rng.randint(-9, 10, shp))
    return a, a.flatten().tolist()


def number(rng):
    return gen.pick(rng, 0, 1, -3, 12345678901, 2.5, -0.125, 1e-7, 123456.789, 1e10, 1e-20, -3.21e-13, 1.23456789e-10,
                    float(10. ** rng.uniform(-18, 12)), -float(2. ** rng.randint(-60, 50)), np.float64(0.1), np.int64(4), np.int32(-2),
                    float(rng.uniform(-5, 5)), True)


def substitution(m):
    rng = m.rng
    names = [str(x) for x in rng.permutation(NAMES)[:rng.randint(1, 6)]]
    var = str(rng.choice(names)) if rng.randint(5) else str(rng.choice(NAMES))
    to = expr(rng, rng.randint(0, 3), gen.pick(rng, names, NAMES, [var]))
    if rng.randint(4) == 0:
        to = gen.pick(rng, 't - t0', '-t', 't+1', '2', 't0-t', 't1', var)
    a, es = matrix(rng, names)
    r = var_replace(a, var, to)
    kw = dict(matrix=a, var=var, to=to, result=r)
    if not m.check('shape', isinstance(r, np.ndarray) and r.shape == a.shape and
                   all(isinstance(x, str) for x in r.flatten().tolist()), **kw):
        return
    for _ in range(2):
        env = {n: float(rng.uniform(-1.5, 1.5)) for n in NAMES + ['t0']}
        val = evaluate(to, env)
        if val is None:
            continue
        env2 = dict(env)
        env2[var] = val
        for e, x in zip(es, r.flatten().tolist()):
            if not isinstance(e, str):
                m.check('numbers', abs(evaluate(x, env) - float(e)) <= 1.01e-15 * min(1., abs(e)) + 1e-15 * abs(e), number=e, got=x)
                if isinstance(e, (int, np.integer)) and not isinstance(e, bool):
                    m.check('numbers', x == str(int(e)), number=e, got=x)
                continue
            exp = evaluate(e, env2)
            if exp is None or not math.isfinite(exp) or abs(exp) > 1e12:
                continue
            got = evaluate(x, env)
            m.check('meaning', got is not None and abs(got - exp) <= 1e-9 * max(1., abs(exp)), formula=e, into=x, got=got,
                    expected=exp, env=env, **kw)
    for e, x in zip(es, r.flatten().tolist()):
        if isinstance(e, str) and var not in tokens(e):
            m.check('untouched', x == e.replace(' ', ''), formula=e, got=x, var=var, to=to)
    # the replaced matrix is again a matrix of formulas
    if var not in tokens(to):
        q = var_replace(r, var, '77')
        m.check('repeated', q.shape == r.shape and
                q.flatten().tolist() == [x.replace(' ', '') for x in r.flatten().tolist()], first=r, second=q, **kw)
    m.sig(es, var, to)
    m.sample(formulas=es[:4], var=var, to=to)


def dependence(m):
    rng = m.rng
    names = [str(x) for x in rng.permutation(NAMES)[:rng.randint(1, 5)]]
    if rng.randint(2):
        names = [x for x in names if x not in ('t', 'k')] or ['x']
    a, es = matrix(rng, names)
    if a.size > 1 and a.dtype.kind != 'f' and a.dtype.kind != 'i' and rng.randint(3) == 0:      # only one element depends
        es = [expr(rng, 2, ['x', 'kt', 't_s']) for _ in es]
        i = rng.randint(len(es)) if rng.randint(2) else len(es) - 1
        es[i] = expr(rng, 2, ['t', 'k', 'x'])
        a = np.array(es).reshape(a.shape)
    if a.dtype.kind in 'OU' and rng.randint(3) == 0:   # parts of values and operations element by element
        es = [e if not isinstance(e, str) or not rng.randint(3) else
              gen.pick(rng, '%s.real', '2*%s.real', '%s.*x', '%s.^2', 'x.*%s', '3.*%s') % rng.choice(names) for e in es]
        a = gen.obj_array(es, a.shape)
    for disc in (False, True):
        v = 'k' if disc else 't'
        exp = any(v in tokens(e) for e in es if isinstance(e, str))
        got = is_dependent(a, disc) if disc or rng.randint(2) else is_dependent(a)
        m.check('dependent' if exp else 'independent', isinstance(got, (bool, np.bool_)) and bool(got) == exp, matrix=a,
                discrete=disc, got=got, expected=exp)
    m.sig(es)


def rejected(m):
    f = np.array(['t'])
    for bad in (np.array([]), np.empty((0, 2)), np.empty((0,), dtype='<U3')):
        m.raises('rejected', lambda: var_replace(bad, 't', 's'), 'm_mat', kinds=(ValueError,))
    for bad in (None, 1, 2.5, ['t'], b't', np.array(['t'])):
        m.raises('rejected', lambda: var_replace(f, bad, 's'), 'from_var_name', kinds=(ValueError,), bad=bad)
        m.raises('rejected', lambda: var_replace(f, 't', bad), 'to_var_name', kinds=(ValueError,), bad=bad)
    m.sig(m.index)


CASES = [('substitution', substitution, 800, 20000), ('dependence', dependence, 500, 10000), ('rejected', rejected, 2, 4)]
