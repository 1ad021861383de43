"""Monitor harness: runs the cases of one property against the real code in /repo and gives a three-valued verdict.

exit 0  the property held on everything observed
exit 1  violated: a line  VIOLATION property=<id> replay=<path>  per mechanism
exit 2  inconclusive: an oracle was never reached, a worker died or nothing was observed
"""
import hashlib
import importlib
import json
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
CASE_CPU_S = 120.        # CPU seconds (not wall clock) one case may use; real cases need milliseconds
CAP_S = {'quick': 400., 'thorough': 3000.}


class CaseAbort(Exception):
    """Stops the current case after a violation that makes the rest meaningless."""


class NoAnswer(BaseException):
    """The code under test did not answer within the CPU budget of a case."""


def _short(x, lim=1500):
    try:
        s = repr(x)
    except Exception as e:
        s = '<unprintable %s>' % type(e).__name__
    return s if len(s) <= lim else s[:lim] + '...'


def digest(*parts):
    """Content digest of arbitrary nested test data."""
    import numpy as np
    h = hashlib.md5()

    def add(x):
        if isinstance(x, np.ndarray):
            h.update(str((x.dtype.str if x.dtype != object else 'O', x.shape)).encode())
            if x.dtype == object:
                for e in x.flatten():
                    add(e)
            else:
                h.update(np.ascontiguousarray(x).tobytes())
        elif isinstance(x, (list, tuple)):
            h.update(b'(')
            for e in x:
                add(e)
            h.update(b')')
        elif isinstance(x, dict):
            for k in sorted(x, key=str):
                h.update(str(k).encode())
                add(x[k])
        elif hasattr(x, 'parameters') and not isinstance(x, type):
            add(list(x.parameters()))
        else:
            h.update(repr(x).encode())
    for p in parts:
        add(p)
    return h.hexdigest()


class Mon:
    """What a case sees: its random source and the recording oracles."""

    def __init__(self, prop, case, index, seed, tier):
        import numpy as np
        self.prop, self.case, self.index, self.tier = prop, case, index, tier
        self.rng = np.random.RandomState(zlib.crc32(('%s/%s/%s/%s' % (seed, prop, case, index)).encode()) & 0xffffffff)
        self.oracles = {}
        self.fails = []
        self.sigs = []
        self.trivial = False
        self.samples = []
        self.notes = {}

    # -- recording
    def sig(self, *parts):
        self.sigs.append(digest(self.case, *parts))

    def sample(self, **kw):
        self.samples.append({k: _short(v, 300) for k, v in kw.items()})

    def note(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    # -- oracles
    def check(self, mech, cond, **detail):
        self.oracles[mech] = self.oracles.get(mech, 0) + 1
        try:
            ok = bool(cond)
        except Exception as e:
            ok = False
            detail['oracle_error'] = e
        if not ok:
            self.fails.append((mech, {k: _short(v) for k, v in detail.items()}))
        return ok

    def need(self, mech, cond, **detail):
        if not self.check(mech, cond, **detail):
            raise CaseAbort()

    def close(self, mech, got, exp, tol=1e-9, **detail):
        """Shape-exact numeric closeness, tolerance relative to the magnitude of the expectation."""
        import numpy as np
        ok = False
        try:
            g, e = np.asarray(got), np.asarray(exp)
            if g.shape == e.shape and g.dtype != object:
                g = g.astype(complex) if g.dtype.kind == 'c' else g.astype(float)
                scale = max(1., float(np.max(np.abs(e)))) if e.size else 1.
                ok = bool(np.all(np.abs(g - e) <= tol * scale)) if g.size else True
        except Exception as ex:
            detail['oracle_error'] = ex
        return self.check(mech, ok, got=got, expected=exp, tol=tol, **detail)

    def raises(self, mech, fn, text=None, kinds=(Exception,), **detail):
        """fn must raise one of kinds; text (if given) must occur in the message."""
        try:
            r = fn()
        except kinds as e:
            return self.check(mech, text is None or text.lower() in str(e).lower(), error=e, wanted=text, **detail)
        except Exception as e:
            return self.check(mech, False, error=e, wanted=kinds, **detail)
        return self.check(mech, False, returned=r, wanted='an error', **detail)


def load_prop(pid):
    return importlib.import_module('mon.props.' + pid.lower())


def run_case(mod, pid, case, func, index, seed, tier):
    import numpy as np
    m = Mon(pid, case, index, seed, tier)
    before = np.geterr()

    def on_alarm(*_):
        raise NoAnswer()
    signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                func(m)
    except CaseAbort:
        pass
    except NoAnswer:
        m.fails.append(('no-answer:' + case, {'cpu_seconds': CASE_CPU_S}))
    except Exception:
        tb = traceback.format_exc()
        m.fails.append(('exception:' + case, {'traceback': tb[-3000:]}))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        np.seterr(**before)
        try:
            from . import hooks
            hooks.reset_environment()
        except Exception:
            m.fails.append(('exception:reset', {'traceback': traceback.format_exc()[-2000:]}))
    return m


def work(pid, tier, seed, jobs, out, deadline):
    from . import hooks
    mod = load_prop(pid)
    hooks.install(getattr(mod, 'HOOK_MODE', 'count'))
    funcs = {c[0]: c[1] for c in mod.CASES}
    res = dict(done=0, skipped=0, oracles={}, sigs=[], trivial=0, samples=[], fails=[], notes={}, cases={})
    for case, index in jobs:
        if time.time() > deadline:
            res['skipped'] += 1
            continue
        m = run_case(mod, pid, case, funcs[case], index, seed, tier)
        res['done'] += 1
        res['cases'][case] = res['cases'].get(case, 0) + 1
        for k, v in m.oracles.items():
            res['oracles'][k] = res['oracles'].get(k, 0) + v
        for k, v in m.notes.items():
            res['notes'][k] = res['notes'].get(k, 0) + v
        if m.trivial:
            res['trivial'] += 1
        else:
            res['sigs'] += m.sigs or [digest(case, index)]
        if len(res['samples']) < 3 and m.samples:
            res['samples'].append(dict(case=case, index=index, **m.samples[0]))
        for mech, detail in m.fails[:4]:
            if len(res['fails']) < 60:
                res['fails'].append(dict(mechanism=mech, case=case, index=index, detail=detail))
    res['events'] = dict(hooks.COUNTS)
    res['hook_fails'] = []
    with open(out, 'w') as f:
        json.dump(res, f)


def known_findings(pid):
    """mechanism -> text for lines  'known: property=<id> mechanism=<name> <text>'."""
    res = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                mech, _, text = rest.partition(' ')
                res[mech.split('=', 1)[1]] = text
    return res


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in CAP_S else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = None
    scale = 1.
    args = argv[1:]
    while args:
        a = args.pop(0)
        if a == '--tier':
            tier = args.pop(0)
        elif a == '--seed':
            seed = int(args.pop(0))
        elif a == '--case':
            only = args.pop(0)
        elif a == '--scale':
            scale = float(args.pop(0))
        elif a == '--replay':
            return replay(pid, args.pop(0))
    t0 = time.time()
    sys.path.insert(0, os.path.join(REPO, 'products'))
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, hard))
    mod = load_prop(pid)
    from . import hooks
    hooks.check_origin(REPO)
    jobs = []
    for c in mod.CASES:
        name, _, nq, nt = c
        if only and name != only:
            continue
        jobs += [(name, i) for i in range(max(1, int((nq if tier == 'quick' else nt) * scale)))]
    jobs.sort(key=lambda j: (j[1], j[0]))
    nproc = max(1, min(int(os.environ.get('VERIF_JOBS', '6')), getattr(mod, 'MAX_JOBS', 64), len(jobs)))
    tmp = tempfile.mkdtemp(prefix='ellmon-')
    bad_workers = []
    results = []
    try:
        pids = []
        for w in range(nproc):
            out = os.path.join(tmp, '%d.json' % w)
            sys.stdout.flush()
            sys.stderr.flush()
            child = os.fork()
            if child == 0:
                code = 1
                try:
                    work(pid, tier, seed, jobs[w::nproc], out, t0 + CAP_S[tier])
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            pids.append((child, out))
        for child, out in pids:
            _, status = os.waitpid(child, 0)
            if status != 0 or not os.path.exists(out):
                bad_workers.append(status)
            else:
                results.append(json.load(open(out)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return report(pid, mod, tier, seed, results, bad_workers, only, t0)


def report(pid, mod, tier, seed, results, bad_workers, only, t0):
    tot = dict(done=0, skipped=0, trivial=0)
    oracles, events, notes, sigs, samples, fails, cases = {}, {}, {}, set(), [], [], {}
    for r in results:
        for k in tot:
            tot[k] += r[k]
        for src, dst in ((r['oracles'], oracles), (r['events'], events), (r['notes'], notes), (r['cases'], cases)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        sigs.update(r['sigs'])
        samples += r['samples']
        fails += r['fails']
    known = known_findings(pid)
    by_mech = {}
    for f in sorted(fails, key=lambda f: (f['index'], f['case'])):
        by_mech.setdefault(f['mechanism'], []).append(f)
    os.makedirs(EVID, exist_ok=True)
    violations = 0
    for mech in sorted(by_mech):
        if mech in known:
            continue
        violations += 1
        f = by_mech[mech][0]
        path = os.path.join(EVID, 'replay-%s-%d.json' % (pid, violations))
        with open(path, 'w') as fh:
            json.dump(dict(property=pid, seed=seed, tier=tier, **f), fh, indent=1)
        print('  %s: %s/%d %s' % (mech, f['case'], f['index'], json.dumps(f['detail'])[:1800]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    for mech, text in known.items():
        if mech in by_mech:
            print('KNOWN-FINDING: property=%s %s' % (pid, text))
    missing = [] if only else [o for o in getattr(mod, 'REQUIRED', []) if not oracles.get(o)]
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=tot['done'], distinct_nontrivial=len(sigs), rule=mod.RULE,
                            samples=samples[:6] or [dict(note='no sample')],
                            oracle_evaluations=sum(oracles.values()), oracles=oracles,
                            api_events=sum(events.values()), api_events_by_function=events,
                            cases=cases, skipped_for_time=tot['skipped'], notes=notes),
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2), violations=violations)
    with open(os.path.join(EVID, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
    print('%s %s seed=%d: %d cases, %d distinct, %d oracle evaluations, %d API events, %d violations, %.1fs' % (
        pid, tier, seed, tot['done'], len(sigs), sum(oracles.values()), sum(events.values()), violations, time.time() - t0))
    if violations:
        return 1
    if bad_workers or missing or not oracles or not tot['done'] or not events and not getattr(mod, 'NO_EVENTS', False):
        print('INCONCLUSIVE property=%s dead workers=%s oracles never reached=%s' % (pid, bad_workers, missing))
        return 2
    return 0


def replay(pid, path):
    d = json.load(open(path))
    sys.path.insert(0, os.path.join(REPO, 'products'))
    from . import hooks
    mod = load_prop(pid)
    hooks.install(getattr(mod, 'HOOK_MODE', 'count'))
    func = {c[0]: c[1] for c in mod.CASES}[d['case']]
    m = run_case(mod, pid, d['case'], func, d['index'], d['seed'], d['tier'])
    for mech, detail in m.fails:
        print(mech)
        for k, v in detail.items():
            print('   ', k, '=', v.replace('\\n', '\n') if isinstance(v, str) else v)
    if m.fails:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('replay: no violation')
    return 0
