"""C24: every construction ends without an error, after a bounded number of steps, with nothing left to do."""
import random
from lib.diagram import *
from lib import steps
from lib.gen import box, uniform_in
from lib.checks import c02, c10

RULE = ('Layout generators, fixed degenerate layouts, the same at extreme scales and offsets, and rows, columns, circles, grids, '
        'lattices, lines, concentric circles and random layouts of up to thousands of sites; an observer records every step, its kind and its event, and '
        'the state of the queue at the end. Distinct: by layout kind and by numbers of steps of each kind.')
ASSUMPTIONS = ['sites are distinct and inside or on a convex polygon', 'no Voronoi vertex on the border of the polygon']
MUST_SEE = ['diagrams', 'site steps', 'circle steps', 'diagrams without circle steps', 'diagrams of 1000 or more sites', 'sites on the border',
            'single sites', 'finished']
LIMIT = 200

LARGE = ['row', 'column', 'circle', 'float circle', 'grid', 'slanted grid', 'hexagons', 'line', 'rings', 'uniform', 'steps', 'two rows', 'cross']


def large(kind, n, seed):
    rng = random.Random('c24/%s/%s/%s' % (kind, n, seed))
    P = box('-10.317', '-10.219', '1010.411', '1010.733')
    m = int(math.sqrt(n))
    if kind == 'row':
        S = [(k * 1000 / n, 400) for k in range(n)]
    elif kind == 'column':
        S = [(400, k * 1000 / n) for k in range(n)]
    elif kind == 'two rows':
        S = [(k * 2000 / n, y) for k in range(n // 2) for y in (300, 601)]
    elif kind == 'circle':
        S = pythagorean(n)
    elif kind == 'float circle':
        S = [(500 + 400 * math.cos(2 * math.pi * k / n), 500 + 400 * math.sin(2 * math.pi * k / n)) for k in range(n)]
    elif kind == 'grid':
        S = [(i * 1000 / m, j * 1000 / m) for i in range(m) for j in range(m)]
    elif kind == 'slanted grid':
        S = [(300 + 7 * i - 3 * j, 50 + 3 * i + 7 * j) for i in range(m) for j in range(m)]
        P = box('-5000.1', '-5000.2', '5000.3', '5000.4')
    elif kind == 'hexagons':
        S = [(round(i * 1000 / m + (j % 2) * 500 / m, 6), round(j * 866 / m, 6)) for i in range(m) for j in range(m)]
    elif kind == 'line':
        S = [(10 + k, 20 + k) for k in range(n)]
        P = box(-1, -1, n + 40, n + 40)
    elif kind == 'rings':
        S = [(500 + r * x, 500 + r * y) for r in range(1, n // 12 + 1) for x, y in
             [(3, 4), (4, 3), (5, 0), (0, 5), (-3, 4), (-4, 3), (-5, 0), (0, -5), (3, -4), (4, -3), (-3, -4), (-4, -3)]]
        b = 6 * (n // 12) + 10
        P = box(500.0711 - b, 500.0317 - b, 500.0523 + b, 500.0919 + b)
    elif kind == 'steps':
        S = [(5 + k, 5 + (k // 2)) for k in range(n)]
        P = box('-1.013', '-1.217', n + 40, n + 41)
    elif kind == 'cross':
        S = [(500, 500)] + [(500 + d * k * 450 * 4 / n, 500 + e * k * 450 * 4 / n) for k in range(1, n // 4) for d, e in ((0, 1), (1, 0), (0, -1), (-1, 0))]
    else:
        S = uniform_in(rng, P, n, 20 * n)
    S = list(dict.fromkeys(S))
    rng.shuffle(S)
    return P, S


def pythagorean(n):
    """Up to 972 points exactly on a circle: the products of the Gaussian integers of norm 5, 13, 17, 29 and 37, squared."""
    pts = {(1, 0)}
    for a, b in ((2, 1), (3, 2), (4, 1), (5, 2), (6, 1)):
        f = [(a * a - b * b, 2 * a * b), (a * a - b * b, -2 * a * b), (a * a + b * b, 0)]
        pts = {(x * c - y * d, x * d + y * c) for x, y in pts for c, d in f}
    pts = sorted({(s * x, t * y) for a, b in pts for x, y in ((a, b), (b, a)) for s in (1, -1) for t in (1, -1)})
    assert len({x * x + y * y for x, y in pts}) == 1
    return [(Decimal(x) / 4000 + 500, Decimal(y) / 4000 + 500) for x, y in pts[:n]]


def jobs(seed, tier):
    q = tier == 'quick'
    out = fixed_jobs() + gen_jobs(seed, 15 if q else 500)
    rng = random.Random('c24' + str(seed))
    for k in range(60 if q else 1500):
        out.append({'far': rng.choice(gen.ALL), 'seed': '%s.far%s' % (seed, k)})
    for k in LARGE:
        for n, r in ([(150, 1), (1100, 1)] if q else [(100, 4), (1000, 3), (5000, 1)]):
            if k == 'circle' and q:
                n = min(n, 400)            # all meeting in one point takes quadratic time
            out += [{'large': k, 'n': n, 'seed': '%s.%s' % (seed, i), 'weight': n} for i in range(r)]
    # beyond any limit on the number of sites or events that one would come across by accident
    for k, n in ([('line', 9000)] if q else [('line', 70000), ('row', 70000), ('uniform', 20000), ('grid', 17000)]):
        out.append({'large': k, 'n': n, 'seed': str(seed), 'weight': n})
    return out


def describe(job):
    from lib import diagram
    return job if 'large' in job else diagram.describe(far(job)) if 'far' in job else diagram.describe(job)


def far(job):
    """A layout at another scale and offset, computed exactly."""
    rng = random.Random('far' + job['seed'])
    poly, sites = gen.make(job['far'], job['seed'])
    s = Decimal(10) ** rng.choice([-9, -6, -3, 0, 3, 6]) * rng.choice([1, 1, 2, Decimal('.5')])
    dx, dy = (Decimal(rng.choice([0, 0, 1, -1, 1000, -10 ** 5])) * max(s, Decimal(1)) * Decimal(rng.choice([1, '1.5'])) for _ in range(2))
    if s < Decimal('.01'):
        dx = dx if abs(dx) < 1000 else dx / 1000
        dy = dy if abs(dy) < 1000 else dy / 1000
        dx, dy = dx * s * 100, dy * s * 100

    def move(p):
        return [str(Decimal(str(p[0])) * s + dx), str(Decimal(str(p[1])) * s + dy)]
    return {'poly': [move(p) for p in poly], 'sites': [move(p) for p in sites]}


def run(job, mon):
    if 'large' in job:
        poly, sites = large(job['large'], job['n'], job['seed'])
        mon.see('diagrams')
        mon.see('diagrams of 1000 or more sites', len(sites) >= 1000)
        what = job['large']
    else:
        c = judge(far(job) if 'far' in job else job, mon)
        if not c:
            return
        poly, sites, o = c
        what = job.get('gen') or job.get('far') or job.get('name')
        mon.see('sites on the border', sum(any(o.on_side(s, k) for k in range(len(o.poly))) for s in o.sites))
    n = len(sites)
    for flag in (True, False):
        seen = {'site': [], 'circle': [], 'done': 0, 'sweep': 0}

        def step(a):
            ev = a.event
            (seen['circle'] if steps.is_circle(ev) else seen['site']).append(ev)
            if len(seen['circle']) > 2 * n + 2 or len(seen['site']) > n:
                raise Violation('there are already %d site and %d circle steps for %d sites' % (len(seen['site']), len(seen['circle']), n))

        def sweep(a):
            seen['sweep'] += 1

        def done(a):
            seen['done'] += 1
        v = build(poly, sites, flag, observers=[steps.make_monitor(step, sweep, done)])
        mon.see('finished')
        mon.see('site steps', len(seen['site']))
        mon.see('circle steps', len(seen['circle']))
        mon.see('diagrams without circle steps', not seen['circle'])
        mon.see('single sites', n == 1)
        mon.shape(what, len(seen['site']), len(seen['circle']))
        mon.check(len(seen['site']) == n, '%d site steps for %d sites', len(seen['site']), n)
        mon.check(len({id(e.point) for e in seen['site']}) == n and {id(e.point) for e in seen['site']} == {id(s) for s in v.sites},
                  'the site steps are not one for each site')
        mon.check(len({id(e) for e in seen['circle']}) == len(seen['circle']), 'a circle event is handled twice')
        mon.check(len(seen['circle']) <= max(0, 2 * n - 5), '%d circle steps for %d sites', len(seen['circle']), n)
        mon.check(seen['sweep'] == 1 and seen['done'] == 1, 'the end of the sweep and of the construction are reported %d and %d times',
                  seen['sweep'], seen['done'])
        pending = [e for e in list(v.event_queue.queue) if not steps.is_circle(e) or e.is_valid]
        mon.check(not pending, '%d events are still pending', len(pending))
        if job.get('large') and n > 500:
            break
