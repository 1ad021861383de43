"""C30  Settings histories: last value wins, objects keep what they got."""
import copy

import numpy as np
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
from .. import gen

RULE = ('random histories (10 to 40 steps) of setting changes, re-initialisations, snapshots, object creations with any '
        'subset of explicit settings, object copies and settings-parsing calls, checked against a reference model after '
        'every step; distinct by the history')
REQUIRED = ['option-value', 'snapshot-current', 'snapshot-frozen', 'object-keeps', 'parse-values', 'parse-rest',
            'parse-args-intact', 'parse-unknown-rejected', 'parse-invalid-rejected', 'reinit-defaults', 'property-reduced', 'setting-used', 'caller-kwargs-intact']

DEFAULTS = {'version': '2.1', 'is_verbose': False, 'abs_tol': 1e-6, 'rel_tol': 1e-5, 'n_time_grid_points': 250,
            'ode_solver_name': 'ode45', 'is_ode_norm_control': 'on', 'is_enabled_ode_solver_options': False,
            'n_plot_2d_points': 200, 'n_plot_3d_points': 200, 'reg_tol': 1e-5}
ORDER = ['version', 'is_verbose', 'abs_tol', 'rel_tol', 'reg_tol', 'ode_solver_name', 'is_ode_norm_control',
         'is_enabled_ode_solver_options', 'n_plot_2d_points', 'n_plot_3d_points', 'n_time_grid_points']
GETTERS = {k: 'get_' + k for k in DEFAULTS}
SETTERS = ['is_verbose', 'n_plot_2d_points', 'n_plot_3d_points', 'n_time_grid_points', 'abs_tol', 'rel_tol']
ELL_SET = ['abs_tol', 'rel_tol', 'n_plot_2d_points', 'n_plot_3d_points']
HYP_SET = ['abs_tol', 'rel_tol']
JUNK = ['color', 'new_fig', 'tol', 'abs_tolerance', 'absTol', 'shade', 'x', 'priority', '']


ALIASES = [('absTol', 'abs_tol', '_abs_tol'), ('relTol', 'rel_tol', '_rel_tol'),
           ('nPlot2dPoints', 'n_plot_2d_points', '_n_plot_2d_points'), ('nPlot3dPoints', 'n_plot_3d_points', '_n_plot_3d_points')]


def good(rng, k):
    if k == 'version':
        return gen.pick(rng, '2.1', '3.0', '')
    if k in ('is_verbose', 'is_enabled_ode_solver_options', 'is_ode_norm_control'):
        return bool(rng.randint(2))
    if k.endswith('tol'):
        return float(10. ** (rng.uniform(-9, -3) if rng.randint(4) else rng.uniform(-20, 2)))
    if k == 'ode_solver_name':
        return gen.pick(rng, 'ode45', 'ode23', 'ode113')
    return gen.pick(rng, int(rng.randint(2, 500)), float(rng.randint(2, 500)))


def bad(rng, k):
    if k == 'version':
        return gen.pick(rng, 2.1, 2, None, ['2.1'])
    if k in ('is_verbose', 'is_enabled_ode_solver_options'):
        return gen.pick(rng, 'on', 1.5, None, 'True', [True])
    if k == 'is_ode_norm_control':
        return gen.pick(rng, 'perhaps', 1.5, None, [True])
    if k.endswith('tol'):
        return gen.pick(rng, 0., -1e-6, -1., float('nan'), '1e-6', None, float('-inf'))
    if k == 'ode_solver_name':
        return gen.pick(rng, 'ode15s', 'ODE45', '', 45, None)
    return gen.pick(rng, 2.5, '200', None, float('nan'), 1e-3, [200], 200. + 10. ** rng.uniform(-12, -1), 150. - 1e-10)


def same(a, b):
    return type(a) is type(b) and a == b


def read(o, cls):
    r = {'abs_tol': cls.get_abs_tol([o], None), 'rel_tol': cls.get_rel_tol([o], None)}
    if cls is Ellipsoid:
        r['n_plot_2d_points'] = cls.get_n_plot_2d_points([o])
        r['n_plot_3d_points'] = cls.get_n_plot_3d_points([o])
    return {k: float(np.asarray(v).flatten()[0]) for k, v in r.items()}


class World:
    """The real configuration next to its reference model."""

    def __init__(self, m):
        self.m, self.rng = m, m.rng
        self.model = dict(DEFAULTS)
        self.objects = []           # (object, class, expected settings)
        self.snaps = []             # (snapshot as returned, expected content)
        self.trace = []

    def step_set(self):
        k = SETTERS[self.rng.randint(len(SETTERS))]
        v = good(self.rng, k)
        getattr(Properties, 'set_' + k)(v)
        self.model[k] = v
        self.trace.append(('set', k, v))

    def step_init(self):
        Properties.init()
        self.model = dict(DEFAULTS)
        self.trace.append(('init',))
        self.options('reinit-defaults')

    def step_snapshot(self):
        s = Properties.get_prop_dict()
        self.m.check('snapshot-current', set(s) >= set(self.model) and all(same(s[k], self.model[k]) for k in self.model),
                     got=s, expected=self.model, history=self.trace)
        kind = self.rng.randint(3)
        if kind == 0:            # the caller scribbles into its snapshot
            k = SETTERS[self.rng.randint(len(SETTERS))]
            s[k] = -1
            s['something'] = 7
        elif kind == 1:
            s.clear()
        self.snaps.append((s, copy.deepcopy(s)))
        self.trace.append(('snapshot', int(kind)))

    def step_create(self):
        rng = self.rng
        is_hyp = rng.randint(3) == 0
        cls, names = (Hyperplane, HYP_SET) if is_hyp else (Ellipsoid, ELL_SET)
        kw = {k: good(rng, k) for k in names if rng.randint(2)}
        given = dict(kw)
        n = rng.randint(1, 4)
        if is_hyp:
            args = (gen.nzvec(rng, n), float(rng.standard_normal()))
        else:
            args = gen.pick(rng, (gen.vec(rng, n), gen.spd(rng, n)), (gen.spd(rng, n),), ())
        o = cls(*args, **kw)
        exp = {k: float(kw.get(k, self.model[k])) for k in names}
        self.m.check('caller-kwargs-intact', kw == given)
        self.trace.append(('create', cls.__name__, given))
        how = rng.randint(3)
        objs = [o]
        if how == 1:
            objs += list(cls.get_copy([o, o]).flatten())
        elif how == 2:
            objs += list(o.rep_mat((1, 2)).flatten())
            if args:
                objs += list(cls.from_rep_mat(*args, (2, 1), **kw).flatten())
        for x in objs:
            self.objects.append((x, cls, exp))

    def step_many(self):
        """Objects created as arrays take their settings the same way."""
        rng = self.rng
        n = rng.randint(1, 4)
        dc = [dict(center_vec=gen.vec(rng, n), shape_mat=gen.spd(rng, n)) for _ in range(2)]
        for d in dc:
            for k in ELL_SET:
                if rng.randint(2):
                    d[k] = good(rng, k)
        arr = Ellipsoid.from_dict([copy.deepcopy(d) for d in dc])
        self.trace.append(('from_dict', [{k: d[k] for k in ELL_SET if k in d} for d in dc]))
        for o, d in zip(list(np.array(arr).flatten()), dc):
            self.objects.append((o, Ellipsoid, {k: float(d.get(k, self.model[k])) for k in ELL_SET}))

    def step_parse(self):
        rng, m = self.rng, self.m
        names = [k for k in ORDER if rng.randint(2)]
        names = [names[i] for i in rng.permutation(len(names))]
        everything = rng.randint(4) == 0
        if everything:
            names = list(ORDER)
        kw = {k: good(rng, k) for k in ORDER if rng.randint(3) == 0}
        for j in JUNK:
            if rng.randint(4) == 0:
                kw[j] = gen.pick(rng, 1, 'v', None, np.zeros(2), [3.])
        kw = {k: kw[k] for k in [list(kw)[i] for i in rng.permutation(len(kw))]} if kw else kw
        before, keys = dict(kw), list(kw)
        asked = list(names)
        self.trace.append(('parse', asked, {k: v for k, v in before.items() if k in ORDER}))
        mode = rng.randint(4)
        wrong = None
        if mode == 0 and names:
            wrong = names[rng.randint(len(names))]
            kw[wrong] = bad(rng, wrong)
            before[wrong] = kw[wrong]
            keys = list(kw)
        if mode == 1 and not everything:
            asked.insert(rng.randint(len(asked) + 1), gen.pick(rng, 'not_a_property', 'abs_tols', 'absTol', 'ABS_TOL', 'solver'))

        def call():
            if everything:
                return Properties.parse_prop(kw)
            return Properties.parse_prop(kw, list(asked))
        if mode == 1 and not everything:
            m.raises('parse-unknown-rejected', call, 'wrongInput', (ValueError,), asked=asked)
        elif wrong is not None:
            m.raises('parse-invalid-rejected', call, 'wrongInput', (ValueError,), name=wrong, value=before[wrong])
        elif asked:
            values, rest = call()
            exp = [before.get(k, self.model[k]) for k in names]
            m.check('parse-values', len(values) == len(exp) and all(same(a, b) for a, b in zip(values, exp)),
                    got=values, expected=exp, names=names, args=before, history=self.trace)
            want = {k: v for k, v in before.items() if k not in names}
            m.check('parse-rest', isinstance(rest, dict) and list(rest) == list(want) and
                    all(rest[k] is want[k] for k in want), got=rest, expected=want)
            m.check('parse-rest', rest is not kw)
            rest['scribble'] = 1
            if values:
                values[0] = 'scribble'
        m.check('parse-args-intact', list(kw) == keys and all(kw[k] is before[k] for k in before), got=kw, expected=before)

    def step_reduce(self):
        """Settings of several objects at once, with and without a reduction."""
        rng, m = self.rng, self.m
        objs = [x for x in self.objects if x[1] is Ellipsoid]
        if not objs:
            return
        sel = [objs[i] for i in rng.randint(0, len(objs), rng.randint(1, 5))]
        arr = gen.obj_array([x[0] for x in sel], (len(sel),))
        k = gen.pick(rng, 'abs_tol', 'rel_tol')
        exp = np.array([x[2][k] for x in sel])
        get = Ellipsoid.get_abs_tol if k == 'abs_tol' else Ellipsoid.get_rel_tol
        m.close('property-reduced', np.asarray(get(arr, None)).flatten(), exp, 0.)
        full, least = get(arr)
        m.close('property-reduced', np.asarray(full).flatten(), exp, 0.)
        m.close('property-reduced', float(least), float(exp.min()), 0.)
        full, most = get(arr, np.max)
        m.close('property-reduced', float(most), float(exp.max()), 0.)

    def step_alias(self):
        """Every accepted spelling of a setting means that setting."""
        rng = self.rng
        cls, names = (Ellipsoid, ALIASES) if rng.randint(3) else (Hyperplane, ALIASES[:2])
        sel = [x for x in self.objects if x[1] is cls]
        for o, _, exp in sel[:3]:
            for k, al in zip(ELL_SET, names):
                for a in al:
                    self.m.close('property-reduced', np.asarray(cls.get_property([o], a, None)).flatten(), np.array([exp[k]]), 0.)
                    self.m.close('property-reduced', float(np.asarray(cls.get_property(np.array([o, o]), a, np.max)[1])), exp[k], 0.)

    def options(self, mech='option-value'):
        for k, g in GETTERS.items():
            v = getattr(Properties, g)()
            self.m.check(mech, same(v, self.model[k]), option=k, got=v, expected=self.model[k], history=self.trace)

    def verify(self):
        self.options()
        for s, exp in self.snaps:
            self.m.check('snapshot-frozen', s == exp, got=s, expected=exp, history=self.trace)
        for o, cls, exp in self.objects:
            got = read(o, cls)
            self.m.check('object-keeps', got == exp, got=got, expected=exp, history=self.trace)


def history(m):
    rng = m.rng
    w = World(m)
    w.options()
    steps = [w.step_set] * 6 + [w.step_create] * 3 + [w.step_many] + [w.step_snapshot] * 2 + [w.step_parse] * 3 + \
            [w.step_reduce] + [w.step_alias] + [w.step_init]
    for _ in range(rng.randint(10, 41)):
        steps[rng.randint(len(steps))]()
        if rng.randint(3) == 0:
            w.verify()
    w.verify()
    m.sig(repr(w.trace))
    m.sample(history=w.trace[:8])


def used(m):
    """The settings an operation uses are those the object got, not those of the configuration of the moment."""
    rng = m.rng
    n2, n3 = int(rng.randint(3, 60)), int(rng.randint(13, 60))
    Properties.set_n_plot_2d_points(n2)
    e2 = Ellipsoid(gen.center(rng, 2), gen.spd(rng, 2))
    e2x = Ellipsoid(gen.center(rng, 2), gen.spd(rng, 2), n_plot_2d_points=n3)
    Properties.set_n_plot_2d_points(int(rng.randint(61, 90)))
    m.check('setting-used', len(e2.get_boundary()) == n2, got=len(e2.get_boundary()), expected=n2)
    m.check('setting-used', len(e2x.get_boundary()) == n3, got=len(e2x.get_boundary()), expected=n3)
    # absolute tolerance at creation decides which shapes are accepted
    tol = float(10. ** rng.uniform(-8, -4))
    Properties.set_abs_tol(tol)
    d = gen.spd(rng, 3)
    slight, much = d.copy(), d.copy()
    slight[0, 1] += 0.3 * tol
    much[0, 1] += 3. * tol
    m.check('setting-used', Ellipsoid(slight) is not None)
    m.raises('setting-used', lambda: Ellipsoid(much), 'wrongInput')
    m.check('setting-used', Ellipsoid(much, abs_tol=10. * tol) is not None)
    m.raises('setting-used', lambda: Ellipsoid(slight, abs_tol=0.1 * tol), 'wrongInput')
    m.sig(n2, n3, tol, d)


CASES = [('history', history, 300, 6000), ('used', used, 80, 1500)]
