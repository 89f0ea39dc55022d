"""C28: a diagram depends on nothing but the numbers given, and creating it changes nothing else."""
import decimal
import gc
import json
import os
import random
import subprocess
import sys
import tempfile
import threading
import weakref
from lib.diagram import *
from lib import env
from lib.checks.c13 import full

RULE = ('Layout generators; each diagram is created again under a random ambient state (precision, rounding mode and traps of the decimal '
        'context, numpy error handling, numbers in lists, tuples and arrays, a deep call stack, polygon and '
        'diagram under different contexts) and compared; everything around (decimal context, numpy settings, random generators, limits, '
        'output streams, files, figures, threads, the containers given) is compared before and after; objects have to be freed with the '
        'diagram. Batches of layouts are created in fresh interpreters with other hash seeds, optimisation levels and modes, whose '
        'complete results have to be the same to the digit. Distinct: by layout shape and ambient state.')
ASSUMPTIONS = ['sites are distinct', 'no Voronoi vertex on the border of the polygon',
               'rounding mode other than the default: equal up to rounding']
MUST_SEE = ['diagrams compared', 'other precisions', 'other rounding modes', 'numpy errors raised', 'containers', 'surroundings compared',
            'objects freed', 'interpreters compared', 'containers changed afterwards', 'bounding circles', 'deep call stacks']
KINDS = ['box', 'conv', 'intgrid', 'samey', 'few', 'tri', 'grid', 'edgecluster', 'boxneg', 'boxfar', 'onborder', 'collinear', 'mirror',
         'circle', 'corner', 'rotgrid', 'floatline', 'hex', 'lattice', 'decimals']
ROUND = [decimal.ROUND_CEILING, decimal.ROUND_DOWN, decimal.ROUND_FLOOR, decimal.ROUND_HALF_DOWN, decimal.ROUND_HALF_EVEN,
         decimal.ROUND_HALF_UP, decimal.ROUND_UP, decimal.ROUND_05UP]
MODES = [['-O'], ['-OO'], ['-X', 'dev', '-W', 'ignore'], ['-X', 'utf8'], ['-I'], ['-X', 'importtime']]
LIMIT = 200


def kinds():
    return [k for k in KINDS if k in gen.ALL]


def jobs(seed, tier):
    n = 20 if tier == 'quick' else 260
    out = gen_jobs(seed, n, kinds())
    for k in range(8 if tier == 'quick' else 80):
        out.append({'batch': '%s.%s' % (seed, k), 'weight': 40})
    return out


def canonical(x):
    return json.loads(json.dumps(x, default=str))


def numbers(v):
    d = full(v)
    d['edges'] = sorted(d['edges'])
    # zeros with and without a sign are equal; the order of equal ones in the list means nothing
    d['vertices'] = sorted(d['vertices'], key=lambda x: tuple(x) + tuple(map(str, x)))
    return d


def containers(rng, pts, given):
    """The same numbers in another container; `given` gets what the caller can look at (or change) afterwards."""
    how = rng.choice(['list', 'tuple', 'lists', 'array', 'object array'])
    if how == 'array' and any(isinstance(c, Decimal) for p in pts for c in p):
        how = 'object array'
    if how == 'list':
        x = [tuple(p) for p in pts]
        given.append(x)
    elif how == 'tuple':
        x = tuple(tuple(p) for p in pts)
        given.append(x)
    elif how == 'lists':
        x = [list(p) for p in pts]
        given.append(x)
    elif how == 'array':
        # an array makes all numbers floats
        x = np.array(pts, dtype=float)
        if any(F(float(b)) != fr(a) for p, q in zip(pts, x) for a, b in zip(p, q)):
            x = np.array(pts, dtype=object)
        given.append(x)
    else:
        x = np.array(pts, dtype=object)
        given.append(x)
    return how, x


def snapshot(x):
    if isinstance(x, np.ndarray):
        return ('array', x.shape, [[repr(c) for c in p] for p in x])
    return [type(x).__name__] + [(type(p).__name__, tuple(map(repr, p))) for p in x]


def context_state(c):
    return (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, tuple(sorted(k.__name__ for k, t in c.traps.items() if t)))


def surroundings():
    import matplotlib
    import matplotlib.pyplot as plt
    import locale
    import warnings
    return {
        'decimal context': context_state(decimal.getcontext()),
        'default decimal context': context_state(decimal.DefaultContext),
        'numpy error handling': tuple(sorted(np.geterr().items())),
        'numpy print options': repr(sorted(np.get_printoptions().items(), key=str)),
        'numpy random state': repr(np.random.get_state()[1][:8]) + repr(np.random.get_state()[2:]),
        'random state': hash(random.getstate()),
        'recursion limit': sys.getrecursionlimit(),
        'garbage collection': (gc.isenabled(), gc.get_threshold()),
        'working directory': os.getcwd(),
        'environment': hash(tuple(sorted(os.environ.items()))),
        'figures': tuple(plt.get_fignums()),
        'matplotlib settings': repr(sorted((k, str(matplotlib.rcParams[k])) for k in ('figure.figsize', 'figure.dpi', 'lines.linewidth', 'font.size', 'interactive'))),
        'threads': threading.active_count(),
        'locale': locale.setlocale(locale.LC_ALL),
        'warning filters': len(warnings.filters),
        'trace functions': (sys.gettrace(), sys.getprofile()),
        'switch interval': sys.getswitchinterval(),
        'integer digits': sys.get_int_max_str_digits(),
        'streams': (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        'exception hook': id(sys.excepthook),
    }


def deep(n, fn):
    return fn() if n <= 0 else deep(n - 1, fn)


def run(job, mon):
    if 'batch' in job:
        return batch(job, mon)
    c = judge(job, mon)
    if not c:
        return
    poly, sites, o = c
    rng = random.Random('ambient' + str(job['seed']) + job['gen'])
    f = api()
    circle = None
    if rng.random() < .25:
        xs, ys = [float(p[0]) for p in poly], [float(p[1]) for p in poly]
        r = rng.choice([.3, .5, .8, 1.2]) * (max(xs) - min(xs) + max(ys) - min(ys)) / 2
        circle = ((min(xs) + max(xs)) / 2 + r / 7, (min(ys) + max(ys)) / 2 + r / 11, r)
    elif rng.random() < .05:
        # small and far away, so that its extremes have many digits
        circle = (rng.choice([1000, -2000, 1e5]), rng.choice([1000, -3000, 1e6]), rng.choice([1, 2, .5]))
        poly = [(circle[0] + dx, circle[1] + dy) for dx, dy in ((-9, -9), (9, -9), (9, 9), (-9, 9))]
        sites = [(circle[0] + rng.randint(-20, 20) / 10, circle[1] + rng.randint(-20, 20) / 10) for _ in range(rng.randint(1, 6))]
        sites = list(dict.fromkeys(sites))
    flag = rng.random() < .75

    def bounding(P):
        if circle:
            from foronoi.contrib import BoundingCircle
            return BoundingCircle(*circle)
        return f.Polygon(P)
    if circle:
        mon.see('bounding circles')
    v = f.Voronoi(bounding(poly), remove_zero_length_edges=flag)
    v.create_diagram(sites)
    want = numbers(v)
    del v
    # under another ambient state
    def ambient():
        x = decimal.Context(prec=rng.choice([1, 2, 3, 4, 6, 9, 15, 17, 28, 40, 59, 60]), rounding=rng.choice(ROUND) if rng.random() < .3 else decimal.ROUND_HALF_EVEN,
                            capitals=rng.choice([0, 1]), clamp=0)
        return x
    first, second = ambient(), ambient()
    if rng.random() < .5:
        second = first.copy()
    if rng.random() < .1:
        first.prec = second.prec = rng.choice([61, 75, 100, 150])
    exact = first.rounding == second.rounding == decimal.ROUND_HALF_EVEN and max(first.prec, second.prec) <= 60
    mon.see('other precisions', first.prec != 28)
    mon.see('other rounding modes', first.rounding != decimal.ROUND_HALF_EVEN or second.rounding != decimal.ROUND_HALF_EVEN)
    given = []
    hp, P = containers(rng, poly, given)
    hs, S = containers(rng, sites, given)
    mon.see('containers')
    before_given = [snapshot(x) for x in given]
    errs = rng.random() < .5
    mon.see('numpy errors raised', errs)
    depth = rng.choice([0, 0, 100, 300])
    mon.see('deep call stacks', depth > 0)
    what = 'precision %d/%d, rounding %s/%s, polygon as %s, sites as %s, stack %d, numpy errors %s' % (
        first.prec, second.prec, first.rounding, second.rounding, hp, hs, depth, errs)
    old = decimal.getcontext()
    out, err = io.StringIO(), io.StringIO()
    here = os.getcwd()
    tmp = tempfile.mkdtemp(prefix='verif-c28-')
    os.chdir(tmp)
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), np.errstate(**({'all': 'raise'} if errs else {})):
                decimal.setcontext(first)
                s1 = surroundings()
                b = deep(depth, lambda: bounding(P))
                s2 = surroundings()
                decimal.setcontext(second)
                v = f.Voronoi(b, remove_zero_length_edges=flag)
                s3 = surroundings()
                deep(depth, lambda: v.create_diagram(S))
                s4 = surroundings()
                for s in v.sites:
                    if s.first_edge is not None:
                        s.borders(), s.vertices(), s.area(), s.area(3)
                s5 = surroundings()
    finally:
        decimal.setcontext(old)
        os.chdir(here)
        left = os.listdir(tmp)
        for x in left:
            os.unlink(os.path.join(tmp, x))
        os.rmdir(tmp)
    for a, z, when in ((s1, s2, 'the bounding polygon'), (s3, s4, 'the diagram'), (s4, s5, 'accessors')):
        mon.see('surroundings compared')
        for k in a:
            mon.check(a[k] == z[k], '%s changed %s: %s -> %s (%s)', when, k, str(a[k])[:80], str(z[k])[:80], what)
    mon.check(not left, 'files were left behind: %s', left)
    mon.check(not out.getvalue() and not err.getvalue(), 'there was output: %r', (out.getvalue() + err.getvalue())[:200])
    mon.check([snapshot(x) for x in given] == before_given, 'the numbers given were changed (%s)', what)
    got = numbers(v)
    mon.see('diagrams compared')
    if exact:
        for k in want:
            mon.check(got[k] == want[k], '%s of the diagram differ with %s', k, what)
    else:
        mon.check(len(got['cells']) == len(want['cells']), 'there are %d cells instead of %d with %s', len(got['cells']), len(want['cells']), what)
        if circle:
            for k, (a, z) in enumerate(zip(got['cells'], want['cells'])):
                A = [(float(x), float(y)) for x, y, _ in a]
                Z = [(float(x), float(y)) for x, y, _ in z]
                near = lambda p, L: min([dist(p, q) for q in L] or [math.inf]) <= 1e-7 * circle[2] + 1e-12 * (abs(circle[0]) + abs(circle[1]))
                mon.check(all(near(p, Z) for p in A) and all(near(p, A) for p in Z), 'the cell of site %d differs with %s', k, what)
        else:
            for k, a in enumerate(got['cells']):
                m = compare_cells([(float(x), float(y)) for x, y, _ in a], o.fcells[k], o.tol)
                mon.check(m is None, 'with %s, the cell of site %d %s', what, k, m)
    x = s = None
    # the containers belong to the caller
    for x in given:
        if isinstance(x, np.ndarray):
            x[:] = 0
        elif isinstance(x, list):
            for p in x:
                if isinstance(p, list):
                    p[0] = p[1] = 0
            del x[:]
    mon.see('containers changed afterwards', len(given))
    mon.check(numbers(v) == got, 'the diagram changed with the containers that the numbers were given in (%s)', what)
    # nothing keeps what was created
    refs = [weakref.ref(x) for x in [v, b] + list(v.sites[:3]) + list(v.edges[:3]) + list(v.vertices[:3])]
    del v, b, s, x
    gc.collect()
    mon.see('objects freed', len(refs))
    for r in refs:
        mon.check(r() is None, '%s is still there after its diagram is gone', type(r()).__name__)
    mon.shape(signature(o), first.prec, first.rounding, hp, hs)


CHILD = '''
import sys, json
sys.path.insert(0, %r)
sys.path.insert(0, %r)
import warnings
warnings.simplefilter('ignore')
from lib import env
env.load()
from lib.checks import c28
print('RESULT' + json.dumps(c28.answers(json.loads(sys.stdin.read()))))
'''


def answers(todo):
    out = []
    for g, s, flag in todo:
        poly, sites = gen.make(g, s)
        out.append(canonical(numbers(build(poly, sites, flag))))
    return out


def batch(job, mon):
    rng = random.Random('batch' + job['batch'])
    todo = []
    while len(todo) < 12:
        g, s = rng.choice(kinds()), '%s.b%d' % (job['batch'], len(todo) + rng.randint(0, 10 ** 6))
        poly, sites = gen.make(g, s)
        if Oracle(poly, sites).wellposed:
            todo.append([g, s, rng.random() < .8])
    want = answers(todo)
    for _ in range(2):
        mode = rng.choice(MODES)
        e = dict(os.environ, VERIF_REPO=env.REPO)
        e.pop('PYTHONHASHSEED', None)
        if mode != ['-I']:
            e['PYTHONHASHSEED'] = str(rng.randint(1, 10 ** 6))
        for k in ('LC_ALL', 'LANG'):
            e[k] = rng.choice(['C', 'POSIX', 'C.UTF-8'])
        p = subprocess.run([sys.executable, '-B'] + mode + ['-c', CHILD % (os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), env.REPO)],
                           input=json.dumps(todo), capture_output=True, text=True, timeout=80, env=e)
        line = [l for l in p.stdout.splitlines() if l.startswith('RESULT')]
        if not mon.check(p.returncode == 0 and len(line) == 1, 'an interpreter with %s ended with %s: %s', mode, p.returncode, p.stderr[-300:]):
            continue
        got = json.loads(line[0][6:])
        mon.see('interpreters compared')
        for t, a, z in zip(todo, got, want):
            mon.check(a == z, 'the diagram of %s differs in an interpreter with %s', t, mode)
    mon.shape('batch', json.dumps(todo))
