"""C31  Errors and warnings identify the caller, tag and message."""
import sys
import warnings
import numpy as np
from ellipy.gen.common.common import get_caller_name, get_caller_name_ext, throw_error, throw_warn
from ..fix import frames, other_frames
from .. import gen

RULE = ('random call chains of 1..8 functions, methods (own, inherited, overridden), static and class methods, lambdas, nested '
        'functions and closures in two modules; the caller looked up at every depth; random tags and messages; real toolbox '
        'errors provoked through the public interface; distinct by content')
REQUIRED = ['caller', 'caller-mode', 'beyond-stack', 'error-text', 'error-kind', 'error-returned', 'error-steps',
            'warning-text', 'warning-kind', 'warning-place', 'mode-rejected', 'toolbox-error']
HOOK_MODE = 'none'
NO_EVENTS = True
MODS = (frames, other_frames)


def chain(rng):
    """Links and the names of their frames, innermost first."""
    links, names = [], []
    for _ in range(rng.randint(1, 7)):
        mod = MODS[rng.randint(2)]
        fn, fr = mod.LINKS[rng.randint(len(mod.LINKS))]
        links.append(fn)
        names += [(mod.__name__ + ('.' + c if c else ''), n) for c, n in fr]
    return links, names[::-1]


def go(links, fn, *args, **kw):
    c = links + [(fn, args, kw)]
    return c[0](c[1:])


def caller(m):
    rng = m.rng
    links, names = chain(rng)
    n = len(names)
    for k in (range(n) if n < 5 else rng.choice(n, 4, replace=False)):
        k = int(k)
        cls, fn = names[k]
        got = go(links, get_caller_name_ext, k + 1)
        m.check('caller', got == (fn, cls), got=got, expected=(fn, cls), names=names, depth=k)
        if k == 0:
            got = go(links, get_caller_name_ext)
            m.check('caller', got == (fn, cls), got=got, expected=(fn, cls), names=names, depth=k)
        got = go(links, get_caller_name, k + 1)
        m.check('caller-mode', got == cls, got=got, expected=cls, names=names, depth=k)
        got = go(links, get_caller_name, k + 1, 'full')
        m.check('caller-mode', got == cls + '.' + fn, got=got, expected=cls + '.' + fn, names=names, depth=k)
        if rng.randint(3) == 0:
            got = go(links, get_caller_name, skip=k + 1, mode='default')
            m.check('caller-mode', got == cls, got=got, expected=cls, names=names, depth=k)
    far = int(rng.randint(200, 100000))
    m.check('beyond-stack', go(links, get_caller_name_ext, far) == ('', ''), far=far)
    m.check('beyond-stack', go(links, get_caller_name, far, gen.pick(rng, 'default', 'full')) == '', far=far)
    # the exact height: the last frame exists, the next does not
    h, f = 0, sys._getframe()
    while f is not None:
        h, f = h + 1, f.f_back
    m.check('beyond-stack', get_caller_name_ext(h + 1) == ('', ''), height=h)
    m.check('beyond-stack', get_caller_name_ext(h) != ('', '') and get_caller_name_ext(1)[0] == 'caller', height=h)
    m.raises('mode-rejected', lambda: go(links, get_caller_name, 1, gen.pick(rng, 'Full', '', 'x', None)), 'mode',
             kinds=(ValueError,))
    m.sig(names)
    m.sample(frames=names)


def text(rng, allow_empty=True):
    pool = ['wrongInput', 'a.b', 'a:b', 'Mixed Case', 'percent %s %d', '{} {0}', 'back\\slash', 'unicode \u00e9\u0416', 'tab\tnl\n',
            'ends with:', ':starts', 'x' * 300, '...', 'ELLIPY:GEN:', 'wrongInput:emptyArray', 'lower.upper']
    return pool[rng.randint(len(pool))] + (str(rng.randint(1000)) if rng.randint(2) else '')


def full(name):
    return (name[0] + '.' + name[1]).replace('.', ':').upper()


def errors(m):
    rng = m.rng
    links, names = chain(rng)
    tag, msg = text(rng), text(rng)
    up = int(rng.randint(1, len(names) + 1)) if rng.randint(2) else 1
    exp = full(names[up - 1]) + ':' + tag + ':' + msg
    kw = dict(tag=tag, message=msg, up=up, names=names, expected=exp)
    args = (tag, msg) if up == 1 and rng.randint(2) else (tag, msg, up)
    try:
        r = go(links, throw_error, *args)
        m.check('error-kind', False, returned=r, **kw)
    except Exception as e:
        m.check('error-kind', type(e) is ValueError, error=e, **kw)
        m.check('error-text', str(e) == exp and e.args == (exp,), got=str(e), **kw)
        if up > 1:
            m.check('error-steps', str(e) == exp, got=str(e), **kw)
    r = go(links, throw_error, tag, msg, up, False)
    m.check('error-returned', type(r) is ValueError and str(r) == exp, got=r, **kw)
    r = go(links, throw_error, tag, msg, n_caller_stack_steps_up=up, throw=False)
    m.check('error-returned', type(r) is ValueError and str(r) == exp, got=r, **kw)
    exp = full(names[0]) + ':' + tag + ':' + msg
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        r = go(links, throw_warn, tag, msg)
    m.check('warning-kind', r is None and len(w) == 1 and w[0].category is RuntimeWarning, got=[str(x) for x in w], **kw)
    if len(w) == 1:
        m.check('warning-text', str(w[0].message) == exp, got=str(w[0].message), wanted=exp)
        want = 'other_frames.py' if names[0][0].startswith(other_frames.__name__) else 'frames.py'
        m.check('warning-place', w[0].filename.replace('\\', '/').split('/')[-1] == want, got=w[0].filename, want=want)
    with warnings.catch_warnings():
        warnings.simplefilter('error')
        m.raises('warning-text', lambda: go(links, throw_warn, tag, msg), exp, kinds=(RuntimeWarning,))
    m.sig(names, tag, msg, up)
    m.sample(tag=tag, message=msg, frames=names, up=up)


def toolbox(m):
    """Errors of the toolbox itself carry the module they come from and a tag."""
    from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
    from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
    from ellipy.gras.la.la import orth_transl, mat_orth, is_mat_symm, sqrtm_pos
    from ellipy.gras.gen.gen import sort_rows_tol, sqrt_pos, mat_dot
    from ellipy.gras.geom.tri.tri import sphere_tri, sphere_tri_ext, map_face_2_edge
    from ellipy.gras.geom.geom import sphere_part
    from ellipy.gras.geom.ell.ell import inv_mat
    from ellipy.gras.sym.sym import var_replace
    from ellipy.gen.dict.dict import dict_compare
    from ellipy.gen.common.common import abs_rel_compare
    n = int(m.rng.randint(1, 5))
    e = Ellipsoid(np.eye(n))
    todo = [
        ('ELLIPY:GRAS:GEN:GEN:', 'wrongInput', lambda: sort_rows_tol(np.eye(n), -1.)),
        ('ELLIPY:GRAS:GEN:GEN:', 'wrongInput', lambda: sqrt_pos(-1. * n)),
        ('ELLIPY:GRAS:GEN:GEN:', 'wrongInput', lambda: mat_dot(np.eye(n), np.eye(n + 1))),
        ('ELLIPY:GRAS:GEOM:TRI:TRI:', 'wrong_input', lambda: sphere_tri(-n)),
        ('ELLIPY:GRAS:GEOM:TRI:TRI:', 'wrong_input', lambda: sphere_tri_ext(2, 0)),
        ('ELLIPY:GRAS:GEOM:TRI:TRI:', 'wrongInput', lambda: map_face_2_edge(np.zeros((n, 2), int))),
        ('ELLIPY:GRAS:GEOM:GEOM:', 'wrongInput', lambda: sphere_part(0)),
        ('ELLIPY:GRAS:SYM:SYM:', 'wrongInput', lambda: var_replace(np.array([]), 't', 's')),
        ('ELLIPY:GEN:DICT:DICT:', 'wrongInput', lambda: dict_compare(1, {})),
        ('ELLIPY:GEN:COMMON:COMMON:', 'wrongInput', lambda: abs_rel_compare(np.eye(n), np.eye(n), -1., None, np.abs)),
        ('ELLIPY:ELLTOOL:CORE:ELLIPSOID:ELLIPSOID:ELLIPSOID:', 'wrongInput', lambda: Ellipsoid(-np.eye(n))),
        ('ELLIPY:ELLTOOL:CORE:HYPERPLANE:HYPERPLANE:HYPERPLANE:', 'wrong', lambda: Hyperplane(np.ones((2, n)), np.ones(7))),
        ('ELLIPY:ELLTOOL:CORE:', 'wrong', lambda: e.is_bigger(Ellipsoid(np.eye(n + 1)))),
    ]
    for prefix, tag, fn in todo:
        try:
            r = fn()
            m.check('toolbox-error', False, returned=r, prefix=prefix)
        except Exception as ex:
            t = str(ex)
            head = t.split(':' + tag)[0]
            m.check('toolbox-error', type(ex) is ValueError and t.startswith(prefix) and ':' + tag in t and
                    head == head.upper(), error=t, prefix=prefix, tag=tag)
    m.sig(n)


CASES = [('caller', caller, 60, 1200), ('errors', errors, 120, 2500), ('toolbox', toolbox, 4, 8)]
