"""C33  Computations never modify their arguments or the configuration."""
import numpy as np
from .. import hooks
from . import workloads

RULE = ('every case of the workloads of the other properties (valid and invalid input) with every public operation, nested '
        'ones to depth 3 included, observed: deep picture of all its arguments, the configuration, the floating-point error '
        'state and the print options (set to random ones beforehand), the random state before and after, also when it '
        'raises; distinct by workload case and content')
REQUIRED = ['arguments-unchanged', 'environment-unchanged']
HOOK_MODE = 'purity'


def make(pid, name, func):
    def case(m):
        rng = m.rng
        state = {k: ('ignore', 'warn', 'call')[rng.randint(2)] for k in ('divide', 'over', 'under', 'invalid')}
        before = dict(hooks.PURITY_STATS)
        printing = dict(precision=rng.randint(3, 13), linewidth=rng.randint(40, 140), threshold=rng.randint(5, 2000), suppress=bool(rng.randint(2)))
        with np.errstate(**state), np.printoptions(**printing):
            np.random.seed(rng.randint(1 << 30))
            sub = workloads.run(m, pid, name, func)
        stats = {k: hooks.PURITY_STATS[k] - before[k] for k in before}
        for k, v in stats.items():
            m.note('observed ' + k, v)
        seen = {}
        for op, what, old, new in hooks.PURITY:
            seen.setdefault((op, what), (old, new))
        args = {k: v for k, v in seen.items() if k[1].startswith('argument')}
        envs = {k: v for k, v in seen.items() if not k[1].startswith('argument')}
        if stats['operations']:
            m.check('arguments-unchanged', not args, changed=[(k, v[0], v[1]) for k, v in args.items()])
            m.check('environment-unchanged', not envs, changed=[(k, v[0], v[1]) for k, v in envs.items()])
        m.trivial = not stats['operations']
        m.sigs += ['%s/%s' % (pid, s) for s in sub.sigs] or [repr((pid, name, m.index))]
        m.sample(workload='%s/%s' % (pid, name), observed=stats)
    return case


CASES = workloads.cases(make, 8, 150)
