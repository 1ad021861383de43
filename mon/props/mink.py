"""Shared workload of C07 and C08: approximations of Minkowski sums."""
import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.conf.properties.Properties import Properties
from .. import gen


def tol_of(e):
    return float(Ellipsoid.get_abs_tol([e], None).flatten()[0])


def h(e, l):
    q, sh = e.parameters()
    return float(q @ l + np.sqrt(max(0., float(l @ sh @ l))))


def members(rng, n, k, degenerate):
    res = []
    for _ in range(k):
        kw = gen.settings(rng)
        if rng.randint(2):
            kw['abs_tol'] = float(10. ** rng.uniform(-9, -5))
        sh = gen.psd(rng, n) if degenerate and rng.randint(2) else gen.spdw(rng, n)
        if degenerate and rng.randint(6) == 0:
            sh, kw['abs_tol'], _ = gen.loose(rng, n, -6, -3)
        elif res and rng.randint(6) == 0:
            sh = res[-1].parameters()[1] * gen.pick(rng, 1., 4., 0.25)
            if np.linalg.eigvalsh(sh)[0] < 0.:
                kw['abs_tol'] = 4. * tol_of(res[-1])
        res.append(Ellipsoid(gen.center(rng, n), sh, **kw))
    return gen.alias(rng, res)


def direction(rng, n, ells, degenerate):
    if degenerate and rng.randint(3) == 0:
        d, v = np.linalg.eigh(gen.sym(ells[rng.randint(len(ells))].parameters()[1]))
        return v[:, 0] * gen.pick(rng, 1., -2.)
    return gen.nzvec(rng, n) * (10. ** rng.uniform(-9, 9) if rng.randint(4) == 0 else 1.)


def run(m, func, external, degenerate):
    rng = m.rng
    n = gen.dim(rng, 6)
    k = gen.pick(rng, 2, 2, 2, 3, 4, 6) if rng.randint(15) else rng.randint(7, 30)
    ells = members(rng, n, k, degenerate)
    nd = gen.many(rng, 5, 40)
    ls = np.stack([direction(rng, n, ells, degenerate) for _ in range(nd)], axis=1)
    if nd > 1 and rng.randint(4) == 0:
        ls[:, 1] = -ls[:, 0]
    arg = ls.copy()
    if nd == 1 and rng.randint(2):
        arg = ls[:, 0].copy()
    deg = any(bool(Ellipsoid.is_degenerate([e]).flatten()[0]) for e in ells)
    shp = gen.pick(rng, (k,), (1, k), (k, 1)) if k != 4 else gen.pick(rng, (4,), (2, 2), (1, 2, 2))
    res = func(gen.as_arg(rng, ells, shp), arg)
    res = np.array(res).flatten()
    m.need('one-per-direction', res.size == nd and all(isinstance(r, Ellipsoid) for r in res), got=res, directions=nd)
    m.check('one-per-direction', len({id(r) for r in res}) == nd)
    # degenerate members take part with their slight regularisation
    slack = sum(np.sqrt(tol_of(e) - min(0., np.linalg.eigvalsh(gen.sym(e.parameters()[1]))[0])) for e in ells if Ellipsoid.is_degenerate([e]).flatten()[0])
    c = sum(e.parameters()[0] for e in ells)
    for i, r in enumerate(res):
        l = ls[:, i]
        q, sh = r.parameters()
        m.close('center', q, c, 1e-10)
        scale = (1. + np.linalg.norm(c) + sum(np.sqrt(np.max(np.abs(e.parameters()[1]))) for e in ells))
        big = 1. + np.sqrt(np.max(np.abs(sh)))
        exp = sum(h(e, l) for e in ells)
        nl = np.linalg.norm(l)
        m.check('touches', abs(h(r, l) - exp) <= nl * (1.01 * slack + 1e-8 * max(scale, big)),
                got=h(r, l), expected=exp, dir=l, slack=slack, members=[list(e.parameters()) for e in ells])
        if deg:
            m.check('degenerate-touches', abs(h(r, l) - exp) <= nl * (1.01 * slack + 1e-8 * max(scale, big)))
        probe = [gen.nzvec(rng, n, 1., 1.) for _ in range(8)]
        t = rng.standard_normal(n)
        probe += [l / nl + 1e-2 * t, l / nl - 1e-2 * t, -l / nl]
        for p in probe:
            np_ = np.linalg.norm(p)
            got, lim = h(r, p), sum(h(e, p) for e in ells)
            eps = np_ * 1e-8 * max(scale, big)
            if external:
                m.check('contains', got >= lim - eps, got=got, sum=lim, dir=p, along=l,
                        members=[list(e.parameters()) for e in ells])
            else:
                m.check('contained', got <= lim + np_ * 1.01 * slack + eps, got=got, sum=lim, dir=p, along=l,
                        members=[list(e.parameters()) for e in ells])
    m.sig([list(e.parameters()) for e in ells], ls)
    m.sample(members=[list(e.parameters()) for e in ells], dirs=ls)


def scaled(m, func, external):
    """Everything in any unit of length: errors count relative to the sizes of the members."""
    rng = m.rng
    n = gen.dim(rng, 5)
    s = 10. ** rng.uniform(-10, 6)
    ells = [Ellipsoid(s * gen.center(rng, n), s * s * gen.spd(rng, n), abs_tol=1e-9 * s * s) for _ in range(rng.randint(2, 5))]
    ls = np.stack([gen.nzvec(rng, n) for _ in range(rng.randint(1, 4))], axis=1)
    res = np.array(func(ells, ls.copy())).flatten()
    m.need('one-per-direction', res.size == ls.shape[1], got=res)
    for i, r in enumerate(res):
        c = sum(e.parameters()[0] for e in ells)
        m.check('center', np.max(np.abs(r.parameters()[0] - c)) <= 1e-10 * s, got=r.parameters()[0], expected=c)
        for p in [ls[:, i]] + [gen.nzvec(rng, n) for _ in range(6)]:
            got, lim, eps = h(r, p), sum(h(e, p) for e in ells), 1e-6 * s * np.linalg.norm(p)
            if p is ls[:, i] or np.array_equal(p, ls[:, i]):
                m.check('touches', abs(got - lim) <= eps, got=got, expected=lim, dir=p, scale=s)
            m.check('contains' if external else 'contained', (got - lim) * (1. if external else -1.) >= -eps, got=got, sum=lim,
                    dir=p, along=ls[:, i], members=[list(e.parameters()) for e in ells])
    m.sig([list(e.parameters()) for e in ells], ls)


def crowd(m, func, external):
    """Hundreds of members or of directions."""
    rng = m.rng
    n = rng.randint(1, 5)
    k, nd = (rng.randint(2, 4), rng.randint(60, 400)) if rng.randint(2) else (rng.randint(31, 300), rng.randint(1, 5))
    ells = [Ellipsoid(gen.center(rng, n), gen.spd(rng, n)) for _ in range(k)]
    c = sum(e.parameters()[0] for e in ells)
    shapes = np.stack([e.parameters()[1] for e in ells])

    def total(l):
        return float(c @ l + np.sum(np.sqrt(np.einsum('i,kij,j->k', l, shapes, l))))
    ls = np.stack([gen.nzvec(rng, n) for _ in range(nd)], axis=1)
    res = np.array(func(ells, ls.copy())).flatten()
    m.need('one-per-direction', res.size == nd and len({id(r) for r in res}) == nd, got=res.size, directions=nd)
    size = 1. + np.linalg.norm(c) + sum(np.sqrt(np.max(np.abs(sh))) for sh in shapes)
    eye = np.eye(n)
    for i, r in enumerate(res):
        l = ls[:, i] / np.linalg.norm(ls[:, i])
        m.check('center', np.max(np.abs(r.parameters()[0] - c)) <= 1e-10 * size, got=r.parameters()[0], expected=c)
        eps = 1e-8 * max(size, np.sqrt(np.max(np.abs(r.parameters()[1]))))
        m.check('touches', abs(h(r, l) - total(l)) <= eps, got=h(r, l), expected=total(l), dir=l, members=k, directions=nd, i=i)
        for p in [-l] + [gen.nzvec(rng, n, 1., 1.) for _ in range(3)] + [eye[j] for j in range(n)]:
            m.check('contains' if external else 'contained', (h(r, p) - total(p)) * (1. if external else -1.) >= -eps * np.linalg.norm(p),
                    got=h(r, p), sum=total(p), dir=p, along=l, members=k, directions=nd, i=i)
    m.sig(k, nd, ls[:, 0], c)
    m.sample(members=k, directions=nd, n=n)


def single(m, func):
    rng = m.rng
    n = gen.dim(rng, 5)
    kw = gen.settings(rng)
    e = Ellipsoid(gen.center(rng, n), gen.spd(rng, n) if rng.randint(3) else gen.psd(rng, n), **kw)
    nd = rng.randint(1, 5)
    res = np.array(func(gen.pick(rng, [e], np.array([e]), np.array([[e]])), gen.dirs(rng, n, nd))).flatten()
    m.need('single', res.size == nd, got=res.size, expected=nd)
    q, sh = e.parameters()
    for r in res:
        m.close('single', r.parameters()[0], q, 0.)
        m.close('single', r.parameters()[1], sh, 0.)
    m.check('single', len({id(r) for r in res} | {id(e)}) == nd + 1)
    if n > 1:
        Ellipsoid.projection([res[0]], np.eye(n)[:, :1])
        m.close('single', e.parameters()[0], q, 0.)
        if nd > 1:
            m.close('single', res[1].parameters()[1], sh, 0.)
    m.sig(q, sh, nd)


def rejected(m, func):
    rng = m.rng
    n = gen.dim(rng, 5)
    ells = members(rng, n, 2, False)
    ls = gen.dirs(rng, n, 2)
    m.raises('rejected', lambda: func([], ls))
    m.raises('rejected', lambda: func(np.empty((0,), dtype=object), ls))
    m.raises('rejected', lambda: func(ells + [Ellipsoid()], ls))
    m.raises('rejected', lambda: func([Ellipsoid()], ls))
    m.raises('rejected', lambda: func(ells + members(rng, n + 1, 1, False), ls))
    m.raises('rejected', lambda: func(ells, gen.dirs(rng, n + 1, 2)))
    m.raises('rejected', lambda: func([ells[0]], gen.dirs(rng, n + 1, 2)))
    m.raises('rejected', lambda: func([1, 2], ls))
    m.sig(m.index)
