#!/usr/bin/env python3
"""Plants bugs described in a spec file, and re-runs the checks against planted bugs.

bugtool.py plant SPEC.py [id ...]   confirm each bug of the spec in a scratch copy, keep the good ones in seeded/
bugtool.py run [id ...]             run the check of its property against each kept bug, print which are caught
"""
import concurrent.futures as cf
import json, os, queue, shutil, subprocess, sys, textwrap

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
REPO = '/repo'
BASE = 'f0a33f3'
WORK = '/tmp/s/wt{}_'.format(os.getpid())
N_JOBS = int(os.environ.get('BUG_JOBS', '6'))
PY = '/opt/pypyenv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent/pycache', PYTHONHASHSEED='0',
           OPENBLAS_NUM_THREADS='1')
ENV.pop('PYTHONPATH', None)
SUB = 'products/ellipy/'

DEMO_SH = '''#!/bin/bash
# cwd is the repository; exits 0 when the property holds on the demonstrated input
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1
export PYTHONPATH="$PWD/products"
exec /opt/pypyenv/bin/python -W ignore "$(dirname "$(readlink -f "$0")")/demo.py"
'''
DEMO_PRE = '''import numpy as np
from ellipy.elltool.core.core import *
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.conf.properties.Properties import Properties
from ellipy.gras.la.la import *
from ellipy.gras.gen.gen import *
from ellipy.gras.geom.geom import *
from ellipy.gras.geom.tri.tri import *
from ellipy.gras.geom.sup.sup import *
from ellipy.gras.geom.ell.ell import *
from ellipy.gras.sym.sym import *
from ellipy.gen.common.common import *
from ellipy.gen.dict.dict import *
from ellipy.gen.logging.logging import get_logger


def rejects(func, *args, **kwargs):
    try:
        func(*args, **kwargs)
    except Exception:
        return True
    return False


'''


def sh(cmd, cwd=None, timeout=1200, env=ENV):
    res = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env,
                         universal_newlines=True)
    return res.returncode, res.stdout


def fresh(i):
    path = WORK + str(i)
    if not os.path.isdir(path):
        subprocess.check_call(['cp', '-a', REPO, path])
    subprocess.check_call(['git', '-C', path, 'checkout', '-q', '--', '.'])
    return path


def stable():
    return json.load(open('/opt/vp/BASELINE.json'))['stable']


def tests(wt):
    out = wt + '.json'
    junit = wt + '.xml'
    sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors',
        '--disable-warnings', '--tb=short', '-o', 'junit_family=xunit2', '--junitxml=' + junit, '-x'],
       cwd=wt + '/products')
    import xml.etree.ElementTree as et
    bad, n = [], 0
    for case in et.parse(junit).getroot().iter('testcase'):
        n += 1
        if any(c.tag in ('failure', 'error') for c in case):
            bad.append(case.get('name'))
    return bad, n


def base_lines(path):
    return set(l for l in subprocess.check_output(['git', '-C', REPO, 'show', BASE + ':' + path],
                                                  universal_newlines=True).split('\n'))


def check(prop, wt):
    env = dict(ENV, VERIF_REPO=wt, VERIF_SEED='1', VERIF_TIER='quick', VERIF_EVIDENCE=wt + '.evidence')
    rc, out = sh([os.path.join(VERIF, 'check.sh'), prop], env=env)
    lines = [l for l in out.split('\n') if l.startswith('VIOLATION property=' + prop + ' ')]
    return rc, bool(lines), out


def plant(bug, i):
    wt = fresh(i)
    for path, old, new in bug['edits']:
        full = os.path.join(wt, SUB + path)
        text = open(full).read()
        if text.count(old) != 1:
            return 'EDIT: {} occurrences of {!r} in {}'.format(text.count(old), old, path)
        open(full, 'w').write(text.replace(old, new))
    diff = subprocess.check_output(['git', '-C', wt, 'diff'], universal_newlines=True)
    cur, base, n_orig = None, None, 0
    for line in diff.split('\n'):
        if line.startswith('--- a/'):
            base = base_lines(line[6:])
        elif line.startswith('-') and not line.startswith('---'):
            if line[1:] not in base:
                return 'NOT ORIGINAL: ' + line
            if line[1:].strip():
                n_orig += 1
    if n_orig == 0:
        return 'NO ORIGINAL LINE CHANGED'
    tmp = wt + '.bug'
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(tmp + '/patch.diff', 'w').write(diff)
    open(tmp + '/demo.sh', 'w').write(DEMO_SH)
    os.chmod(tmp + '/demo.sh', 0o755)
    open(tmp + '/demo.py', 'w').write(DEMO_PRE + textwrap.dedent(bug['demo']).strip() + '\n')
    json.dump({'property': bug['prop'], 'needs': bug['needs'], 'what_it_breaks': bug['what']},
              open(tmp + '/meta.json', 'w'), indent=1)
    rc, out = sh([tmp + '/demo.sh'], cwd=REPO, timeout=300)
    if rc != 0:
        return 'DEMO FAILS ON CLEAN: ' + out[-400:]
    rc, out = sh([tmp + '/demo.sh'], cwd=wt, timeout=300)
    if rc == 0:
        return 'DEMO PASSES ON BUG'
    bad, n = tests(wt)
    if bad or n < 170:
        return 'TESTS FAIL: {} of {}'.format(bad[:3], n)
    dst = os.path.join(SEEDED, bug['id'])
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(tmp, dst)
    rc, hit, cout = check(bug['prop'], wt)
    return ('CAUGHT' if rc == 1 and hit else 'MISSED rc={} {}'.format(rc, cout[-200:] if rc not in (0, 1) else '')) + \
        ' [demo: {}]'.format(out.strip().split('\n')[-1][:100])


def rerun(bid, i):
    wt = fresh(i)
    d = os.path.join(SEEDED, bid)
    prop = json.load(open(d + '/meta.json'))['property']
    rc, out = sh(['git', '-C', wt, 'apply', d + '/patch.diff'])
    if rc:
        return 'NO APPLY ' + out
    res = []
    rc, hit, cout = check(prop, wt)
    subprocess.check_call(['git', '-C', wt, 'checkout', '-q', '--', '.'])
    return 'CAUGHT' if rc == 1 and hit else 'MISSED rc={} {}'.format(rc, cout[-300:] if rc not in (0, 1) else '')


def main():
    mode, args = sys.argv[1], sys.argv[2:]
    pool = queue.Queue()
    for i in range(N_JOBS):
        pool.put(i)

    def job(func, x):
        i = pool.get()
        try:
            return func(x, i)
        except Exception as exc:
            return 'TOOL ERROR {!r}'.format(exc)
        finally:
            pool.put(i)
    todo = []
    if mode == 'plant':
        bugs = []
        ns = {'bug': lambda bid, prop, edits, needs, what, demo: bugs.append(
            dict(id=bid, prop=prop, edits=edits, needs=needs, what=what, demo=demo))}
        exec(open(args[0]).read(), ns)
        todo = [(b['id'], plant, b) for b in bugs if len(args) == 1 or b['id'] in args[1:]]
    else:
        ids = args or sorted(os.listdir(SEEDED))
        todo = [(b, rerun, b) for b in ids]
    with cf.ThreadPoolExecutor(N_JOBS) as ex:
        futs = {ex.submit(job, f, x): b for b, f, x in todo}
        path = os.path.join(VERIF, 'tools', 'bug_results.json')
        for fut in cf.as_completed(futs):
            print(futs[fut], fut.result(), flush=True)
            if fut.result().startswith(('CAUGHT', 'MISSED')):
                known = json.load(open(path)) if os.path.exists(path) else {}
                known[futs[fut]] = fut.result().split()[0].lower()
                json.dump(known, open(path, 'w'), indent=1, sort_keys=True)
    subprocess.call('rm -rf ' + WORK + '*', shell=True)


main()
