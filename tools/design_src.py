"""Source of /verif/DESIGN.md.  Run:  python3 tools/design_src.py  (from /verif; reads the modules, the evidence of the last
quick runs for the cost column, and tools/bug_results.json for what catches what)."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]

HEAD = '''# Runtime monitoring of ellipy — design

## 1. What is run, and what watches it

ellipy is pure Python (PyPy 3.9 + numpy/scipy), single-threaded, without native code of its own. It has no memory, no
locks and no undefined behaviour for a sanitizer to observe: ASan/UBSan/TSan/Miri/race detectors have nothing to
instrument here that belongs to ellipy (instrumenting numpy would test numpy). What remains of the family, and what
decides **all {n} properties**, is *monitors over executions of the real code*:

* the real package in `/repo/products` is imported (never a copy, never a model; `hooks.check_origin` refuses anything else);
* its public API is instrumented at run time by `mon/hooks.py` — wrapping after import, so `/repo` carries no hooks — in one of
  four modes: `count` (every public call the workload makes is counted), `purity` (deep picture of all arguments, the
  configuration, the floating-point error state, the random state and the print options before and after every public
  operation, nested ones to depth 3 included, also when it raises), `history` (every outermost call is recorded with
  copies of its arguments and its result) and `none` (C31, which looks at the call stack and would see the wrapper);
* generated workloads (`mon/gen.py`, `mon/props/cNN.py`) drive it: valid, boundary, hostile and stress inputs, random
  histories, faults (invalid elements in the middle of arrays, functions that raise, objects changed between calls);
* oracles observe every execution: *online* ones (a second, independent computation of what the property demands —
  through eigenvalues, vertex enumeration, linear programming, `math`, a scalar loop, a reference model — never a stored
  number and never ellipy itself), *metamorphic* ones (order, arrangement, container, scaling, repetition) and
  *offline* ones (replay of recorded histories, also in a process that never made a call).

**No property is listed under not_applicable**: each is about values, errors, logs or state visible through the public API.

### Verdicts

`check.sh <id>` runs all cases of a property in up to 6 processes. 0: held on everything observed. 1: at least one oracle
mechanism failed, one `VIOLATION` line per mechanism with a replay file (`check.sh <id> --replay FILE` runs that single
case again and prints everything). 2: inconclusive — a worker died, or an oracle listed in `REQUIRED` was never reached
(a check that ran but observed nothing must not pass). A case that uses more than 120 CPU seconds is a violation
(`no-answer`); real ones need milliseconds.

### Evidence

`evidence/<id>.json`: number of cases, distinct non-trivial ones (by content digest), evaluations per oracle, calls per
public function, cases skipped for time (0 on this machine), samples. Deterministic for given `VERIF_SEED`/`VERIF_TIER`.

### Judging behaviour, not text

Checks import only public names, and never look at source, private attributes or helper calls, so refactorings
are invisible to them. Every tolerance is a property of the *oracle's* rounding (with a safety factor found by sweeps of other
seeds at 4–10 times the number of cases), not of the observed deviation; inputs nearer to a threshold than rounding can
tell are generated on purpose but judged only where the definition is decidable, and counted in the notes.

### Sizes and scales

Besides typical sizes all generators now and then (1 in 12 to 20) produce much larger ones (`gen.dim`, `gen.many`,
`gen.BIG_SHAPES`: dimensions to 20, hundreds of directions, pages or points, 4-dimensional arrays) and, where an
absolute tolerance does not forbid it, scales over 12 to 24 orders of magnitude. Planted bugs that depend on a size or scale threshold
("more than 64 rows", "shorter than 1e-8") were what drove this.
Two wrappers rerun existing cases at another size with the same oracles: `gen.crowded` (cases `crowd_*`, `crowd`: arrays of 55 to
hundreds of objects, points or directions) and `gen.large` (cases `large_*`: spaces and matrices of 20 to 70 dimensions).

### Bounds

Exploration only: the statement is about the executions observed. quick ≈ 5–20 s per property on 8 cores
(C33/C34 ≈ 25 s), thorough 20–40 times as many cases (capped at 50 minutes per property).

## 2. The properties

Cost: wall time of the last quick run on this machine. "Bugs": planted bugs of that property, see section 5.
'''

N = {
'C01': ('data reported by the object compared with what was passed (converted independently); symmetry and semidefiniteness of every object built or returned by an operation recomputed; after construction, every array passed in and every array handed out is overwritten and the object observed again; each kind of invalid input is built at a controlled distance beyond the tolerance',
        'sweeps both sides of the tolerance, every array form and aliasing histories'),
'C02': ('each copy/replica/import is compared field by field (centre, shape, four settings) with the original read beforehand; identity of objects; then one object is changed in place (projection, negation) and all others observed again',
        'settings differing per object and from the configuration in force at copy time; array shapes; objects occurring twice'),
'C03': ('the verdict is recomputed from the definition with an own matrix root; negation, symmetry, reflexivity, report emptiness as metamorphic oracles',
        'differences placed at 0.2–0.8 and 1.25–5 times the thresholds, in one entry only, for every pairing of shapes'),
'C04': ('<q,l>+sqrt(l\'Ql) evaluated in scalar arithmetic; the point must attain the value and satisfy the ellipsoid inequality (through the pseudo-inverse and the null space); vectorised answers against one-at-a-time calls',
        'all pairing forms with distinct ellipsoids and directions, directions without extent'),
'C05': ('every point is put into the ellipsoid equation, polar angles of the 2-D points must go round (largest gap), in 3-D the grid is checked to be a closed surface over the points; counts by definition',
        'all entry points × configured/explicit counts × factors × flat ellipsoids'),
'C06': ('radius of every point in every member through eigenvalues raised to the member\'s tolerance; combination by definition; repeated with permuted points, permuted ellipsoids and single points',
        'membership patterns over many members, large and small tolerances, points off the hull of degenerate members'),
'C07': ('support function of the result (own computation) against the sum of the members\' in the given and in many probe directions', 'containment in *every* direction needs probes no test has'),
'C08': ('as C07 with the inequality reversed', 'as C07'),
'C09': ('support function of the shadow against that of the original along the directions; matrices against U\'QU; in-place/copy identity; each unusable basis must leave every object as it was', 'directions of very different lengths, chains, arrays'),
'C10': ('vectors scaled so that their support value on the original is 1 must lie on the boundary of the polar; bipolar; rejection of degenerate members and of members with the origin outside', 'off-centre ellipsoids up to 0.97 of the way'),
'C11': ('pairs are built from a chosen largest generalised eigenvalue, so the verdict is known; T A T\' and T B T\' are multiplied out', 'crossing pairs, pairs touching exactly, degenerate first or second ones'),
'C12': ('spectra are chosen, so volume, rank, degeneracy, extreme eigenvalues are known (relative comparison for tiny and huge ones)', 'mixed arrays, tolerance edges at 0.3 and 3 tolerances, dimensions to 20'),
'C13': ('points are placed at a chosen signed distance', 'infinite coordinates × pairings × tolerances'),
'C14': ('rescaled and re-oriented copies must be equal and parallel, clearly turned or shifted ones not', 'sign and scale of normals in any dimension and pairing'),
'C15': ('centre negated, shape kept; hyperplane normal and shift negated (same point set), twice gives the original; the arguments are left alone', 'arrays, empty and point ellipsoids'),
'C16': ('O\'O = I and O s ∥ d multiplied out; the optimum of the max variants from singular values of the projected matrix (closed form)', 'nearly (anti)parallel pairs down to 1e-9, lengths 1e-13..1e13'),
'C17': ('matrices are built from a chosen asymmetry / eigenvalue / singular value', 'exactly at, just below and just above each tolerance'),
'C18': ('spectra and singular values are chosen, so results are known in closed form; bases by orthogonality and triangular coefficients', 'repeated, zero, slightly negative and tiny values'),
'C19': ('quadratic forms by elimination with independent formulas; ellipsoid volume closed form; the fusion criterion by direct evaluation, its derivative by differences', 'all modes × vector forms × centres × scales'),
'C20': ('every page recomputed on its own with numpy', 'rectangular pages, single pages, mixed single/stack operands, memory layouts, badly conditioned pages'),
'C21': ('direct products page by page', 'generic (non-symmetric) eigenvector matrices'),
'C22': ('every entry evaluated by `math` at every time point', 'random expression grammar, constants mixed with time, all layouts'),
'C23': ('prefix, midpoints, area, boundary, Euler characteristic, edge bound recomputed from vertices and faces; edge map re-derived; each step limit compared with its predecessor', 'non-uniform meshes, partial refinement, adjustment'),
'C24': ('unit length, angles, counts; closedness and orientation by counting directed edges; nesting; tube grid against its definition', 'every count around depth switches'),
'C25': ('expected verdict known by construction (relabeled, reordered, perturbed / one modification); lookup by sets; sorting by chains of gaps', 'planted modifications at any place'),
'C26': ('vertices of the intersection of half-spaces enumerated (or LP when unbounded); meeting points solved directly', 'non-convex differences, wrap-around, irregular unordered directions, 24 orders of magnitude'),
'C27': ('scalar loop over the elements', 'every dtype, special values, both sides of tolerances'),
'C28': ('independent recursion over the structures; planted differences', 'any depth and type'),
'C29': ('formulas are evaluated before and after substitution at random points; a tokenizer decides dependence', 'names containing one another, nested replacement'),
'C30': ('reference model (a dictionary) next to the real configuration; every getter, snapshot and object re-read after steps', 'histories of 10–40 steps'),
'C31': ('the harness knows which function it is in; text of the raised object compared', 'chains of methods, closures, lambdas, two modules, long names'),
'C32': ('emitted lines captured at the file-descriptor level and compared one for one; results with verbosity on and off compared', 'repeated logger requests, all kinds of callers'),
'C33': ('before/after picture around every public call of *all other workloads*', 'any argument type at any operation, errors included'),
'C34': ('recorded calls repeated: reordered, on the same objects, after all results were overwritten, in a fresh process', 'history dependence (caches, aliasing, global state) is invisible to isolated tests'),
'C35': ('linear search; a table of types', 'duplicates, mixed types, 2-D first collections'),
'C36': ('exported values against parameters; printed text parsed back', 'settings changed after creation, every kind of object'),
'C37': ('every array operation on every container against single calls', 'containers × operations × shapes; foreign elements'),
'C38': ('data reported by the hyperplane compared with what was passed; every kind of invalid normal and shift must be rejected by every constructor; arrays passed in or handed out are overwritten and the object and its copies observed again', 'forms × number types × memory layouts × aliasing histories; one-number normals around the tolerance'),
'C39': ('every operation done in two coordinate systems, results carried over; chains of operations whose results must coincide', 'relations between operations, which no test of a single operation sees'),
}

TAIL = '''
## 3. Defects found and repaired

{nfix} genuine defects were found by these checks on the original tree and repaired, each in its own `fix:` commit; they are
listed in `known_findings.txt` (`fixed:` lines, which suppress nothing). No finding is left open (no `known:` line).

## 4. What is deliberately not claimed

Behaviour the library leaves open, or where the judgement is not decidable at the precision available. Nothing here was
loosened to silence a correct alarm.

* C03/C14: verdicts nearer than 20% to a threshold; hyperplane equality near the discontinuity of the orientation rule.
* C04: directions with near-zero extent are compared with 1e-6 (the root turns rounding 1e-16 into 1e-8). Support and membership of
  empty collections; a single object follows the shape of the directions.
* C05: boundary points of degenerate ellipsoids are judged by membership in the flat set, not by an equation.
* C06: points within 1e-4 of a boundary they are not known to lie on; shapes indefinite within the tolerance; a mode that is not
  text is treated as union by the library.
* C09: one array holding the same object twice, projected in place.
* C11: a second ellipsoid sticking out of the hull of a degenerate first one by less than its tolerance.
* C12: volume/trace/extreme eigenvalues are flat arrays whatever the shape.
* C13/C14: zero normals in dimension two or more, empty normals.
* C16: the max variants are only defined for flat vectors.
* C20: `lr_divide_vec` with a 2-D matrix takes a single vector; `lr_multiply` of a 2-D matrix with several pages uses page 0;
  `make_pos_definite_or_nan` of a single indefinite matrix gives a scalar nan; products of zero pages. C21: 2-D first arguments.
* C22: leading or trailing blanks in an expression (a syntax error); functions must return an array, a scalar or a flat list; how often a
  function is called.
* C25: sorting a matrix without rows; a 1-D face list in the comparison.
* C27/C28: integers beyond 2^53, 0-d object arrays, tuples containing arrays, arrays mixing dictionaries with other things, order of the keys in
  the report.
* C30: negative or boolean point counts; a fractional size given to `rep_mat`; settings of derived objects (polar, sums, negation) beyond what
  C02, C09 and C15 state.
* C31: only the module part of the text of errors raised inside the library is compared, so extracted helpers are no violation.
* C01: settings given as numpy integers, unknown keyword arguments of a constructor (ignored by the library), `True` as a point count.
* C04/C07/C08: support values of shapes slightly indefinite within their tolerance, along directions longer than 1; touching sums whose
  members are degenerate is judged within the regularisation.
* C09: orthogonality of a basis is an absolute tolerance, so huge bases and tolerances below rounding are rejected; very large degenerate
  shapes (1e10 and more) may be rejected as indefinite by rounding.
* C10/C07/C08: polars and Minkowski results are created with the settings in force, not those of the members.
* C11: pairs of condition 1e17 and more. C12: the volume in odd dimensions from 171 on (the gamma function overflows).
* C14: parallel test of two normals that both have size zero (ValueError); normals whose squared length over- or underflows.
* C16: vectors whose squared length underflows. C20: stacks of integers follow the integer arithmetic of numpy; complex arrays of three and
  more dimensions are not treated as real. C25: repeated faces and surfaces that are not manifolds.
* C28: `dict_compare` takes integers as doubles; keys are text. C29: attribute-like occurrences (`x.t`).
* C30/C36: `parse_prop` hands unknown options back by reference. C31: handlers and propagation of the root logger; a level the user sets on a
  logger between calls is reset. C36: ragged lists.
* Private helpers (`_get_scalar_polar_internal` without the check, `_calc_diff_one_dir`).
* Never exercised because they are stubs (`pass`) in this version: ge/gt/le/lt, get_inv/inv, move_2_origin, plus/minus/mtimes/shape,
  quad_func, ellbndr_2d/3d, is_bad_direction, check_settings, set/get_conf_repo_mgr.

False alarms met while building, and what was corrected: polar near-degenerate members (tolerance of the bipolar comparison now follows the
condition number), root of nearly singular matrices (compared by squares), `reg_mat` of matrices with a zero singular value (directions of
singular vectors are open; singular values are compared), membership with large tolerances (margin follows the tolerance), inner calls
of helpers that are not public (no longer observed by C33), and statements that promised more than the library documents (number of calls
in from_func, order of report keys, containment within tolerance of a degenerate hull) — these statements were withdrawn together with the planted bugs that relied on them.

## 5. Planted bugs and what catches them

`seeded/` holds {nbug} bugs, each confirmed in a scratch copy (applies, builds, 170 stable tests pass, demonstration passes without and fails with
it). They were written from the statements and the code in batches (a–o), each batch before looking at what the checks cover; missed ones led to
stronger workloads (see "Sizes and scales"). In the other direction, sixteen source files were refactored in a scratch copy without changing behaviour
(helpers extracted, loops rewritten, statements reordered, conditions inverted); all checks stayed quiet on it with several seeds. `python3 tools/bugtool.py run` runs the check of its property against each; last complete result:

'''

MUT = '''
## 6. Mutation runs

`tools/mutate.py` makes systematic small changes (conditions, constants, operators, dropped statements, swapped operands) to whole source files,
keeps those the 170 tests do not notice, and runs the related checks. Survivors were inspected one by one; those that were
not equivalent led to new oracles (C02 settings of replicas, C05 grids, C09 chains, C30 parse order, C36, C37). What
still survives falls into these classes: dead code (`_calc_diff_one_dir`, operators of stubs), checks made
redundant by a later check (type tests before a numpy call raising anyway), `.flatten()` on flat arrays, `copy` of something already
copied, `>`/`>=` at a float threshold, deletion of validation of arguments that are rejected later anyway, and a boundary tolerance changed by a factor below
two (inside the margin the properties leave).

## 7. Running it

* `./check.sh C07` · `./check.sh C07 --tier thorough` · `--seed N` · `--scale F` · `--case NAME` · `--replay FILE`
* `VERIF_REPO=<copy>` runs against another tree (planting tools), `VERIF_EVIDENCE=<dir>` writes evidence elsewhere, `VERIF_JOBS=N`.
* New property: add to `tools/properties_src.py`, write `mon/props/cNN.py`, run `tools/properties_src.py`, `tools/manifest_src.py`, `tools/design_src.py`.
'''


def consts(pid):
    ns = {}
    t = ast.parse(open(os.path.join(HERE, 'mon/props', pid.lower() + '.py')).read())
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('RULE', 'REQUIRED'):
            try:
                ns[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return ns


def main():
    res = {}
    p = os.path.join(HERE, 'tools', 'bug_results.json')
    if os.path.exists(p):
        res = json.load(open(p))
    bugs = {}
    sd = os.path.join(HERE, 'seeded')
    for b in sorted(os.listdir(sd)):
        d = json.load(open(os.path.join(sd, b, 'meta.json')))
        bugs.setdefault(d['property'], []).append((b, d))
    out = [HEAD.format(n=len(PROPS))]
    for p in PROPS:
        pid = p['id']
        c = consts(pid)
        oracle, beyond = N.get(pid, ('', ''))
        cost = ''
        ev = os.path.join(HERE, 'tools', 'cost.json')
        if os.path.exists(ev):
            e = json.load(open(ev)).get(pid)
            if e:
                cost = '%d cases, %d oracle evaluations, %d observed API calls, %.0f s' % tuple(e)
        out.append('### %s %s\n' % (pid, p['title']))
        out.append('- **Workload:** ' + c.get('RULE', '') + '.')
        out.append('- **Oracle:** ' + oracle + '.')
        out.append('- **Mechanisms** (each must be reached): ' + ', '.join(c.get('REQUIRED', [])) + '.')
        out.append('- **Beyond the tests:** ' + beyond + '.')
        if cost:
            out.append('- **Quick run:** ' + cost + '.')
        bs = bugs.get(pid, [])
        if bs:
            out.append('- **Bugs:** ' + ', '.join(b for b, _ in bs) + '.')
        out.append('')
    n = sum(1 for l in open(os.path.join(HERE, 'known_findings.txt')) if l.startswith('fixed:'))
    out.append(TAIL.format(nfix=n, nbug=sum(len(v) for v in bugs.values())))
    out.append('| bug | property | needs | result |\n|---|---|---|---|')
    for pid in sorted(bugs):
        for b, d in bugs[pid]:
            out.append('| %s | %s | %s | %s |' % (b, pid, d['needs'].replace('|', '/'), res.get(b, '')))
    out.append(MUT)
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out))


main()
