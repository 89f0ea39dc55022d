"""C30: the work of a construction grows like n log n."""
import copy
import os
import random
import sys
from lib.diagram import *
from lib.gen import box
from lib import counting
from lib.checks import c24

RULE = ('Pairs of layouts of one kind (rows, columns, lines, stairs, circles up to rounding, grids, hexagonal lattices, rings, crosses, random '
        'layouts, clusters, a ring around a site), the second about sixteen times as large (quick) or up to sixty-four times (thorough), in random or '
        'sorted order; a monitor counts every line of the package that is executed and every turn of a loop while each is constructed, '
        'by phase (sweep, finish), and every pass of a function or operator of the interpreter over a list by its length. Distinct: by kind, order of input and sizes.')
ASSUMPTIONS = ['at most a fixed number of sites are on one empty circle, since vertices at one place are compared one by one (the exact circle layout '
               'is excluded)', 'the bounding polygon has a fixed number of corners',
               'of the work inside of the interpreter, functions and operators that pass over a list are counted (sorted, min, list.remove, in, +, slices, ...), by its length']
MUST_SEE = ['constructions', 'lines executed', 'pairs compared', 'steps', 'phases compared']
LIMIT = 850
TOOL = 4
KINDS = [k for k in c24.LARGE if k != 'circle'] + ['star', 'clusters', 'v', 'parabola']
SLACK = 1.6
# Functions of the interpreter that pass over a whole list
OVER = (sorted, min, max, sum, any, all, list, tuple, set, frozenset, list.remove, list.index, list.count, list.sort, list.reverse, list.copy, tuple.index,
        tuple.count, set.copy, dict.copy, copy.copy)


def setup():
    counting.install()


def jobs(seed, tier):
    q = tier == 'quick'
    out = []
    for k in KINDS:
        for order in (['random', 'sorted'] if not q else [random.Random('%s%s' % (k, seed)).choice(['random', 'random', 'sorted', 'reversed'])]):
            for a, b in ([(100, 1600)] if q else [(100, 1600), (100, 6400), (400, 6400)]):
                out.append({'kind': k, 'small': a, 'large': b, 'order': order, 'seed': str(seed), 'weight': b})
    return out


def layout(kind, n, seed):
    rng = random.Random('c30/%s/%s/%s' % (kind, n, seed))
    P = box('-10.317', '-10.219', '1010.411', '1010.733')
    if kind == 'star':
        S = [(500, 500)] + [(500 + rng.uniform(300, 301) * math.cos(2 * math.pi * k / n), 500 + rng.uniform(300, 301) * math.sin(2 * math.pi * k / n))
                            for k in range(n)]
    elif kind == 'clusters':
        S = [(rng.choice([100, 500, 900]) + rng.gauss(0, 5), rng.choice([100, 500, 900]) + rng.gauss(0, 5)) for _ in range(n)]
    elif kind == 'v':
        S = [(500 + (-1) ** k * 450 * k / n, 100 + 800 * k / n) for k in range(n)]
    elif kind == 'parabola':
        S = [(1000 * k / n, 100 + 700 * (2 * k / n - 1) ** 2) for k in range(n)]
    else:
        return c24.large(kind, n, seed)
    return P, list(dict.fromkeys(S))


def measure(P, S, mon, most=None):
    """Lines executed in the package: {phase: count}, and the steps made."""
    f = api()
    where = os.path.dirname(os.path.abspath(f.__file__)) + os.sep
    count = {'sweep': 0, 'finish': 0}
    state = {'phase': 'sweep', 'steps': 0, 'passes': 0}
    m = sys.monitoring

    def line(code, number):
        if not code.co_filename.startswith(where):
            return m.DISABLE
        count[state['phase']] += 1
        if most and count[state['phase']] > most[state['phase']]:
            m.set_events(TOOL, 0)
            raise Violation('more than %d lines in the %s' % (most[state['phase']], state['phase']))

    def jump(code, offset, to):
        # the next turn of a loop that is on one line
        if not code.co_filename.startswith(where):
            return m.DISABLE
        if to < offset:
            count[state['phase']] += 1

    over = {id(g): g for g in OVER}
    names = {(g.__objclass__, g.__name__) for g in OVER if hasattr(g, '__objclass__')}

    def passed(n):
        count[state['phase']] += n
        state['passes'] += 1

    def call(code, offset, what, first):
        if not code.co_filename.startswith(where):
            return m.DISABLE
        if id(what) in over:
            on = first
        elif (type(getattr(what, '__self__', None)), getattr(what, '__name__', None)) in names:
            on = what.__self__
        else:
            return None
        if isinstance(on, (list, tuple, set, frozenset, dict)):
            passed(len(on))

    from lib import steps

    def step(a):
        state['steps'] += 1

    def sweep(a):
        state['phase'] = 'finish'
    polygon = f.Polygon(P)
    v = f.Voronoi(polygon)
    v.attach_observer(steps.make_monitor(step, sweep, lambda a: None))
    m.use_tool_id(TOOL, 'verif')
    counting.counter.charge = passed
    try:
        m.restart_events()
        m.register_callback(TOOL, m.events.LINE, line)
        m.register_callback(TOOL, m.events.CALL, call)
        m.register_callback(TOOL, m.events.JUMP, jump)
        m.set_events(TOOL, m.events.LINE | m.events.CALL | m.events.JUMP)
        v.create_diagram(S)
    finally:
        counting.counter.charge = None
        m.set_events(TOOL, 0)
        m.register_callback(TOOL, m.events.LINE, None)
        m.register_callback(TOOL, m.events.CALL, None)
        m.register_callback(TOOL, m.events.JUMP, None)
        m.free_tool_id(TOOL)
    return count, state['steps'], state['passes'], v


def run(job, mon):
    sizes = []
    most = None
    for n in (job['small'], job['large']):
        P, S = layout(job['kind'], n, job['seed'])
        if job['order'] != 'random':
            S = sorted(S, key=lambda p: (-p[1], p[0]), reverse=job['order'] == 'reversed')
        else:
            random.Random('order' + job['seed']).shuffle(S)
        if sizes:
            # stop when it is clear that it is too much
            a, x = sizes[0]
            most = {k: 2 * SLACK * (x[k] or math.inf) * (len(S) * math.log2(len(S))) / (a * math.log2(a)) for k in x}
        count, steps, passes, v = measure(P, S, mon, most)
        mon.see('constructions')
        mon.see('lines executed', sum(count.values()))
        mon.see('steps', steps)
        mon.see('passes over lists by the interpreter', passes)
        mon.check(len(v.sites) == len(S) and steps >= len(S), 'only %d steps for %d sites', steps, len(S))
        sizes.append((len(S), count))
    (a, x), (b, y) = sizes
    bound = SLACK * (b * math.log2(b)) / (a * math.log2(a))
    mon.see('pairs compared')
    mon.shape(job['kind'], job['order'], a, b)
    for phase in ('sweep', 'finish'):
        if x[phase]:
            mon.see('phases compared')
            ratio = y[phase] / x[phase]
            mon.top('growth of the %s, in parts of n log n' % phase, round(ratio * SLACK / bound, 3))
            mon.check(ratio <= bound, '%s: %d lines for %d sites and %d for %d sites in the %s, %.1f times as many instead of at most %.1f '
                      '(n log n with a margin)', job['kind'], x[phase], a, y[phase], b, phase, ratio, bound)
