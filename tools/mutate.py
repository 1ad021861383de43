#!/usr/bin/env python3
"""Systematic mutants of the code under test, run against the checks that should notice them.

mutate.py list                      print the number of mutants of every file
mutate.py run OUT [REGEX] [N]       run (at most N, evenly picked) mutants whose id matches; one line per mutant in OUT

Every mutant is first shown to the checks of its function (reduced, then full quick counts).  The ones that stay unseen
are then run through the test suite: 'SURVIVED' ones (unseen by both) are the gaps to look at.
"""
import ast, concurrent.futures as cf, copy, json, os, queue, re, shutil, subprocess, sys, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SUB = 'products/ellipy/'
PY = '/opt/pypyenv/bin/python'
N_JOBS = int(os.environ.get('MUT_JOBS', '7'))
WORK = '/tmp/s/mt{}_'.format(os.getpid())
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent/pycache', PYTHONHASHSEED='0',
           OPENBLAS_NUM_THREADS='1')
ENV.pop('PYTHONPATH', None)

MAP = [
    ('elltool/core/ellipsoid/Ellipsoid.py', [
        (r'__init__|_shape_mat|get_shape_mat', 'C01 C03 C02'), (r'from_rep_mat|from_dict|dict_2_ell|to_dict|ell_2_dict|_get_single', 'C02 C36'),
        (r'polar', 'C10'), (r'_regularize', 'C08 C11 C06 C04'), (r'ellbndr|boundary|grid', 'C05'), (r'projection', 'C09'),
        (r'is_bigger', 'C11'), (r'is_internal|is_int_single|f_single_case', 'C06'), (r'minksum_ea|f_add_sh', 'C07'),
        (r'minksum_ia|f_rot', 'C08'), (r'f_single_direction', 'C07 C08'), (r'rho', 'C04'), (r'uminus|neg', 'C15'),
        (r'ne|_get_prop', 'C03 C02'), (r'parameters|double', 'C01 C12'), (r'str', 'C36'), (r'', 'C01 C02 C03 C05')]),
    ('elltool/core/aellipsoid/AEllipsoid.py', [
        (r'rep_mat|from_dict', 'C02'), (r'center', 'C01 C15 C02'), (r'projection', 'C09'), (r'plot', 'C30 C05'),
        (r'degenerate|volume|dimension|eig|trace|shape', 'C12'), (r'', 'C01 C02 C12 C30')]),
    ('elltool/core/abasicellipsoid/ABasicEllipsoid.py', [
        (r'tol', 'C30 C03 C02'), (r'is_equal|eq|form_comp', 'C03 C14'), (r'copy', 'C02'), (r'is_empty', 'C12 C38'), (r'rep_mat', 'C02'),
        (r'', 'C03 C02 C30 C12 C14')]),
    ('elltool/core/hyperplane/Hyperplane.py', [
        (r'__init__|_normal|_shift', 'C38 C13'), (r'contains|process', 'C13'), (r'parallel', 'C14'), (r'uminus|neg|set_single', 'C15'),
        (r'dict|dict_2|copy|rep_mat|hp_2', 'C02 C36 C14'), (r'dimension', 'C12 C13'), (r'ne', 'C14'), (r'str', 'C36'),
        (r'', 'C13 C14 C15 C02')]),
    ('elltool/core/core.py', [(r'unitball', 'C01 C12'), (r'sim_diag', 'C11'), (r'fusion', 'C19'), (r'valign', 'C16')]),
    ('elltool/conf/properties/Properties.py', [(r'', 'C30')]),
    ('elltool/conf/properties/_ParseProp.py', [(r'', 'C30')]),
    ('gen/common/common.py', [(r'caller|throw', 'C31'), (r'member|numeric', 'C35'), (r'', 'C27')]),
    ('gen/dict/dict.py', [(r'', 'C28')]),
    ('gen/logging/logging.py', [(r'', 'C32')]),
    ('gras/sym/sym.py', [(r'', 'C29')]),
    ('gras/geom/geom.py', [(r'', 'C24')]),
    ('gras/geom/ell/ell.py', [(r'rho_mat', 'C04'), (r'', 'C19')]),
    ('gras/geom/sup/sup.py', [(r'', 'C26')]),
    ('gras/la/la.py', [(r'transl', 'C16'), (r'is_mat|real', 'C17'), (r'', 'C18 C16')]),
    ('gras/geom/tri/tri.py', [(r'tube|icosa|sphere|norm|depth', 'C24'), (r'is_face|equal|attach|void|fnum|intersect|flip', 'C25'),
                              (r'edge|shrink|deal', 'C23')]),
    ('gras/gen/gen.py', [(r'sort_rows', 'C25'), (r'sqrt_pos', 'C18'), (r'formula|from_func|from_expr|to_array', 'C22'),
                         (r'svd', 'C21'), (r'', 'C20')]),
]

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.MatMult: [], ast.FloorDiv: [], ast.Mod: []}
NAMES = {'min': 'max', 'max': 'min', 'all': 'any', 'any': 'all', 'amax': 'amin', 'amin': 'amax', 'argmax': 'argmin',
         'argmin': 'argmax', 'floor': 'ceil', 'fix': 'ceil', 'ceil': 'floor', 'minimum': 'maximum', 'maximum': 'minimum',
         'sin': 'cos', 'cos': 'sin', 'hstack': 'vstack', 'vstack': 'hstack', 'zeros': 'ones', 'ones': 'zeros',
         'logical_and': 'logical_or', 'logical_or': 'logical_and', 'greater': 'less', 'less': 'greater'}
DROP = {'copy', 'abs', 'sqrt', 'sort', 'unique', 'real', 'flatten', 'sorted', 'list', 'set', 'ravel', 'transpose', 'upper', 'lower', 'array'}


def fname(f):
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''


def variants(node):
    """Replacement nodes (or text) for one node."""
    res = []
    if isinstance(node, ast.Compare):
        for i, op in enumerate(node.ops):
            for new in CMP.get(type(op), []):
                n = copy.deepcopy(node)
                n.ops[i] = new()
                res.append(n)
    elif isinstance(node, ast.BinOp):
        for new in BIN.get(type(node.op), []):
            n = copy.deepcopy(node)
            n.op = new()
            res.append(n)
        if isinstance(node.op, (ast.MatMult, ast.Sub)):
            n = copy.deepcopy(node)
            n.left, n.right = n.right, n.left
            res.append(n)
        if isinstance(node.op, (ast.Mult, ast.MatMult, ast.Add)):
            res.append(copy.deepcopy(node.left))
    elif isinstance(node, ast.BoolOp):
        n = copy.deepcopy(node)
        n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        res.append(n)
        for i in range(len(node.values)):
            n = copy.deepcopy(node)
            del n.values[i]
            res.append(n.values[0] if len(n.values) == 1 else n)
    elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub, ast.Invert)):
        res.append(copy.deepcopy(node.operand))
    elif isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            res.append(ast.Constant(not v))
        elif isinstance(v, (int, float)):
            res += [ast.Constant(v + 1), ast.Constant(v - 1 if v else -1)]
            if isinstance(v, float) and v:
                res.append(ast.Constant(v * 2))
    elif isinstance(node, ast.Call):
        f = fname(node.func)
        if f in NAMES:
            n = copy.deepcopy(node)
            if isinstance(n.func, ast.Attribute):
                n.func.attr = NAMES[f]
            else:
                n.func.id = NAMES[f]
            res.append(n)
        if f in DROP:
            if isinstance(node.func, ast.Attribute) and not node.args and f not in ('upper', 'lower') or \
                    f in ('upper', 'lower') and isinstance(node.func, ast.Attribute):
                res.append(copy.deepcopy(node.func.value))
            elif node.args:
                res.append(copy.deepcopy(node.args[0]))
        if len(node.args) == 2 and f not in ('throw_error', 'isinstance', 'throw_warn'):
            n = copy.deepcopy(node)
            n.args = n.args[::-1]
            res.append(n)
        for i, k in enumerate(node.keywords):
            if k.arg in ('axis', 'ord', 'dtype', 'rcond', 'keepdims', 'side', 'kind', 'copy', 'order'):
                n = copy.deepcopy(node)
                del n.keywords[i]
                res.append(n)
    elif isinstance(node, ast.Attribute) and node.attr == 'T':
        res.append(copy.deepcopy(node.value))
    elif isinstance(node, ast.If):
        res.append(('test', ast.Constant(True)))
        res.append(('test', ast.Constant(False)))
    elif isinstance(node, ast.IfExp):
        res += [copy.deepcopy(node.body), copy.deepcopy(node.orelse)]
    elif isinstance(node, (ast.Expr, ast.AugAssign)):
        if not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
            res.append('pass')
    elif isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Subscript):
        res.append('pass')
    elif isinstance(node, (ast.Break, ast.Continue)):
        res.append('pass')
    return res


def offsets(text):
    res, pos = [0], 0
    for line in text.split('\n'):
        pos += len(line) + 1
        res.append(pos)
    return res


def mutants(path):
    text = open(os.path.join(REPO, SUB, path)).read()
    tree = ast.parse(text)
    off = offsets(text)
    pos = lambda l, c: off[l - 1] + c
    out = []

    def walk(node, fun, inside):
        if isinstance(node, (ast.FunctionDef,)):
            if all(isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) for s in node.body):
                return
            fun = (fun + '.' if fun else '') + node.name
            for d in node.args.defaults + node.args.kw_defaults:
                if d is not None:
                    walk(d, fun, True)
            for s in node.body:
                walk(s, fun, True)
            return
        if isinstance(node, (ast.Import, ast.ImportFrom)) or isinstance(node, ast.AnnAssign) and node.value is None:
            return
        if inside:
            for j, v in enumerate(variants(node)):
                tgt = node
                if isinstance(v, tuple):
                    tgt, v = getattr(node, v[0]), v[1]
                new = v if isinstance(v, str) else ast.unparse(v) if isinstance(v, (ast.Constant, ast.Name, ast.Call, ast.Attribute, ast.Subscript)) \
                    else '(' + ast.unparse(v) + ')'
                a, b = pos(tgt.lineno, tgt.col_offset), pos(tgt.end_lineno, tgt.end_col_offset)
                res = text[:a] + new + text[b:]
                try:
                    ast.parse(res)
                except SyntaxError:
                    continue
                out.append(dict(id='%s:%d:%s:%d.%d.%d' % (path, tgt.lineno, fun, tgt.col_offset, j, len(out)), path=path, fun=fun,
                                old=text[a:b], new=new, text=res))
        for c in ast.iter_child_nodes(node):
            if isinstance(node, (ast.AnnAssign, ast.arg)) and c is getattr(node, 'annotation', None):
                continue
            walk(c, fun, inside)
    for n in tree.body:
        walk(n, '', False)
    return out


def props(path, fun):
    for p, lst in MAP:
        if p == path:
            for rx, ids in lst:
                if any(re.search(rx, part) for part in reversed(fun.split('.'))):
                    return ids.split()
    return []


def sh(cmd, cwd=None, env=ENV, timeout=400):
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, universal_newlines=True,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return -1, 'TIMEOUT'


def try_mutant(mu, i):
    wt = WORK + str(i)
    if not os.path.isdir(wt):
        subprocess.check_call(['cp', '-a', REPO, wt])
    full = os.path.join(wt, SUB, mu['path'])
    orig = open(os.path.join(REPO, SUB, mu['path'])).read()
    open(full, 'w').write(mu['text'])
    try:
        ids = [p for p in props(mu['path'], mu['fun']) if os.path.exists(VERIF + '/mon/props/%s.py' % p.lower())]
        for scale in ('0.04', '0.3', '1'):
            for p in ids:
                env = dict(ENV, VERIF_REPO=wt, VERIF_SEED='1', VERIF_TIER='quick', VERIF_EVIDENCE=wt + '.evidence', VERIF_JOBS='1')
                rc, out = sh([VERIF + '/check.sh', p, '--scale', scale], env=env)
                if rc == 1:
                    return 'seen ' + p
                if rc not in (0,):
                    return 'noanswer %s rc=%s' % (p, rc)
        out = wt + '.xml'
        if os.path.exists(out):
            os.unlink(out)
        rc, txt = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=120', '--disable-warnings', '--tb=no',
                      '-x', '-o', 'junit_family=xunit2', '--junitxml=' + out], cwd=wt + '/products', timeout=900)
        return ('tests' if rc else 'SURVIVED') + ' unseen by ' + ' '.join(ids)
    finally:
        open(full, 'w').write(orig)


def main():
    allm = [m for p, _ in MAP for m in mutants(p)]
    if sys.argv[1] == 'list':
        for p, _ in MAP:
            print(p, sum(m['path'] == p for m in allm))
        print(len(allm))
        return
    out = sys.argv[2]
    rx = sys.argv[3] if len(sys.argv) > 3 else ''
    todo = [m for m in allm if re.search(rx, m['id'])]
    done = set()
    if os.path.exists(out):
        done = set(json.loads(l)['id'] for l in open(out))
    todo = [m for m in todo if m['id'] not in done]
    if len(sys.argv) > 4 and len(todo) > int(sys.argv[4]):
        n = int(sys.argv[4])
        todo = [todo[int(k * len(todo) / n)] for k in range(n)]
    pool = queue.Queue()
    for i in range(N_JOBS):
        pool.put(i)
    f = open(out, 'a')

    def job(m):
        i = pool.get()
        try:
            r = try_mutant(m, i)
        except Exception as e:
            r = 'TOOL %r' % e
        finally:
            pool.put(i)
        return r
    with cf.ThreadPoolExecutor(N_JOBS) as ex:
        futs = {ex.submit(job, m): m for m in todo}
        for fut in cf.as_completed(futs):
            m = futs[fut]
            f.write(json.dumps(dict(id=m['id'], old=m['old'], new=m['new'], result=fut.result())) + '\n')
            f.flush()
    subprocess.call('rm -rf ' + WORK + '*', shell=True)


main()
