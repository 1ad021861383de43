"""C32  Logging emits each message once and never changes results."""
import contextlib
import io
import logging
import re
import sys
import numpy as np
from ellipy.elltool.conf.properties.Properties import Properties
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.gen.logging.logging import get_logger
from ..fix import frames, other_frames
from .. import gen, hooks

RULE = ('random histories of obtaining loggers (from functions, methods, nested functions of two modules) and emitting messages '
        'at every level, the emitted text compared line by line; every operation that regularises degenerate ellipsoids run '
        'with verbosity on, off and toggled; distinct by content')
REQUIRED = ['once', 'name', 'level', 'silent', 'logs', 'same-result', 'same-lines', 'caller-named']
LINE = re.compile(r'^(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d[,.]\d+) \[(.*?) *\] (\w+) +(.*)$')
LEVELS = ('debug', 'info', 'warning', 'error', 'critical')


class capture:
    """stderr while the block runs; loggers are forgotten before and after."""

    def __enter__(self):
        hooks.reset_environment()
        self.verbose = None
        self.out = io.StringIO()
        self.ctx = contextlib.redirect_stderr(self.out)
        self.ctx.__enter__()
        return self

    def __exit__(self, *a):
        self.ctx.__exit__(*a)
        for name in list(logging.root.manager.loggerDict):
            lg = logging.getLogger(name)
            for h in list(lg.handlers):
                lg.removeHandler(h)

    def lines(self):
        return [x for x in self.out.getvalue().split('\n') if x]


def history(m):
    rng = m.rng
    sent = []
    with capture() as c:
        links = []
        for _ in range(rng.randint(1, 4)):
            mod = gen.pick(rng, frames, other_frames)
            fn, fr = mod.LINKS[rng.randint(len(mod.LINKS))]
            cls, name = fr[-1]
            if links and rng.randint(5) == 0:   # a logger whose name begins with the name of another one
                mod = gen.pick(rng, frames, other_frames)
                want = gen.pick(rng, ('', 'Base'), ('Base', 'method'))
                fn, fr = [x for x in mod.LINKS if x[1][-1] == want][0]
                cls, name = fr[-1]
            links.append((fn, mod.__name__ + ('.' + cls if cls else '') + '.' + name))
        held = []
        for i in range(rng.randint(1, 25)):
            fn, name = links[rng.randint(len(links))]
            k = rng.randint(4)
            if k == 0 or not held:
                lg = fn([(get_logger, (), {})])
                m.check('name', lg.name == name and isinstance(lg, logging.Logger), got=lg.name, expected=name)
                held.append(lg)
            elif k == 1:
                lg = fn([(get_logger, (), {})])
                held.append(lg)
            lg = held[rng.randint(len(held))]
            lev = LEVELS[rng.randint(5)]
            msg = 'message %d-%d %s' % (m.index, i, gen.pick(rng, '', 'a: b [c]', '%s', '100%', 'long ' * rng.randint(10, 2000)))
            if rng.randint(5) == 0:
                getattr(lg, lev)('message %s-%d', m.index, i)
                msg = 'message %d-%d' % (m.index, i)
            else:
                getattr(lg, lev)(msg)
            sent.append((lg.name, lev.upper(), msg.rstrip()))
        got = c.lines()
    parsed = [LINE.match(x) for x in got]
    m.check('once', len(got) == len(sent), got=got, sent=sent)
    if m.check('level', all(parsed), got=got):
        seen = [(p.group(2), p.group(3), p.group(4).rstrip()) for p in parsed]
        m.check('once', seen == sent, got=seen, sent=sent)
    m.sig(sent)
    m.sample(sent=sent[:5])


def workload(rng):
    """An operation over ellipsoids and whether it must log something when verbose."""
    n = int(rng.randint(2, 5))
    deg = bool(rng.randint(3))
    ks = [gen.spd(rng, n) for _ in range(rng.randint(1, 4))]
    if deg:
        ks[rng.randint(len(ks))] = gen.psd(rng, n, rng.randint(1, n))
    cs = [gen.vec(rng, n) for _ in ks]
    own = [gen.pick(rng, {}, {}, dict(abs_tol=1e-2), dict(abs_tol=1e-4, rel_tol=1e-3), dict(abs_tol=1e-9)) for _ in ks]
    d = gen.dirs(rng, n, rng.randint(1, 4))
    pts = np.stack([gen.vec(rng, n) for _ in range(rng.randint(1, 4))], axis=1)
    if rng.randint(2):                       # near the boundary: just inside and outside of the (thickened) ellipsoid
        pts = np.stack([c + np.real(gen.pick(rng, np.linalg.qr(q)[0][:, -1], np.linalg.eigh(q)[1][:, 0])) * 10. ** rng.uniform(-4, 0)
                        for c, q in zip(cs, ks)], axis=1)
    k = rng.randint(6)

    def mk():
        return [Ellipsoid(c, q, **kw) for c, q, kw in zip(cs, ks, own)]

    def bigger():
        e = mk()
        first = [x for x in e if x.is_degenerate([x]).flat[0]]
        other = Ellipsoid(np.zeros(n), first[0].get_shape_mat() if first else 0.2 * np.eye(n))
        return bool((first[0] if first else e[0]).is_bigger(other))
    ops = [('is_internal', lambda: Ellipsoid.is_internal(mk(), pts, 'u'), deg),
           ('is_internal_i', lambda: Ellipsoid.is_internal(mk(), pts, 'i'), deg),
           ('minksum_ea', lambda: Ellipsoid.minksum_ea(mk(), d), deg and len(ks) > 1),
           ('minksum_ia', lambda: Ellipsoid.minksum_ia(mk(), d), deg and len(ks) > 1),
           ('is_bigger', bigger, deg),
           ('rho', lambda: Ellipsoid.rho(mk()[0], d), False)]
    return ops[k] + (ks, cs, d, pts)


def verbosity(m):
    rng = m.rng
    name, op, must, ks, cs, d, pts = workload(rng)
    kw = dict(op=name, shapes=ks, centres=cs, dirs=d, points=pts)
    res, lines, kept, last = [], [], [], None
    plan = [False, True, True, False, True] if rng.randint(2) else [True, False, True, True, False]
    with capture() as c:
        before = 0
        for v in plan:
            if v != last:                   # the setting lasts from operation to operation
                Properties.set_is_verbose(v)
                last = v
            try:
                res.append(op())
            except Exception as e:
                res.append(e)
            kept.append(Properties.get_is_verbose() == v)
            now = len(c.lines())
            lines.append(now - before)
            before = now
        text = c.lines()
    Properties.set_is_verbose(False)
    m.check('silent', all(n == 0 for n, v in zip(lines, plan) if not v), lines=lines, plan=plan, text=text, **kw)
    on = [n for n, v in zip(lines, plan) if v]
    m.check('verbosity-kept', all(kept), kept=kept, plan=plan, **kw)
    m.check('same-lines', len(set(on)) == 1, lines=lines, plan=plan, text=text, **kw)
    if must:
        m.check('logs', all(n > 0 for n in on), lines=lines, plan=plan, **kw)
    m.check('level', all(LINE.match(x) for x in text), text=text)
    m.check('caller-named', all('ellipy' in LINE.match(x).group(2) for x in text if LINE.match(x)), text=text)
    m.check('same-result', all(hooks.same_value(res[0], r, 0.) for r in res[1:]), results=res, **kw)
    m.sig(name, ks, cs, d, pts)
    m.note('lines', sum(lines))


CASES = [('history', history, 200, 4000), ('verbosity', verbosity, 200, 5000)]
