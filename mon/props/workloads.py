"""The workloads of the other properties, run for what a monitor sees and not for their own verdicts."""
import importlib
import os
import re

from .. import harness

SKIP = {'c31', 'c33', 'c34'}      # c31 inspects the call stack


def modules(skip=()):
    here = os.path.dirname(os.path.abspath(__file__))
    names = sorted(f[:-3] for f in os.listdir(here) if re.match(r'c\d\d\.py$', f))
    return [(n.upper(), importlib.import_module('mon.props.' + n)) for n in names if n not in SKIP | set(skip)]


def run(m, pid, name, func):
    """One case of another property with its own verdict ignored."""
    sub = harness.Mon(pid, name, m.index, '%s/%d' % (m.prop, m.rng.randint(1 << 30)), m.tier)
    try:
        func(sub)
    except Exception:
        m.note('workload-stopped-early')
    return sub


def cases(make, nq, nt, skip=()):
    """[(case name, function, quick, thorough)] with make(pid, name, func) -> case function."""
    res = []
    for pid, mod in modules(skip):
        for name, func, q, t in mod.CASES:
            if name.startswith(('crowd', 'large_')):    # other sizes of the same calls
                continue
            res.append(('%s:%s' % (pid, name), make(pid, name, func), max(1, min(q, nq)), max(1, min(t, nt))))
    return res
