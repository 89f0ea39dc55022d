"""C02: the cells tile the polygon and answer nearest-site queries, for small and large inputs."""
import math
import random
from lib.diagram import *
from lib.gen import box, uniform_in

RULE = ('Layout generators as in C01 with up to 60 sites, and large random, clustered and grid layouts of up to several '
        'thousand sites; the monitor adds up areas, tests convexity and asks random points for their nearest site by '
        'brute force. Distinct: by number of sites and corners per cell.')
ASSUMPTIONS = ['sites are distinct and inside or on a convex polygon', 'no Voronoi vertex on the border of the polygon']
MUST_SEE = ['queries answered', 'cells', 'large diagrams']
LIMIT = 120


def big(kind, n, seed):
    rng = random.Random('%s/%s/%s' % (kind, n, seed))
    P = rng.choice([box(0, 0, 100, 100), box(-70, -90, 10, 5), [(0, 0), (120, 10), (110, 90), (40, 130), (-20, 70)]])
    if kind == 'uniform':
        return P, uniform_in(rng, P, n, 20 * n)
    if kind == 'clusters':
        c = uniform_in(rng, P, 8)
        S = []
        while len(S) < n:
            x, y = rng.choice(c)
            r = rng.choice([.5, 2, 6])
            S.append((x + rng.gauss(0, r), y + rng.gauss(0, r)))
    elif kind == 'grid':
        m = int(math.sqrt(n))
        P = box(-.337, -.411, 100.213, 100.119)
        S = [((i + .5) * 100 / m, (j + .5) * 100 / m) for i in range(m) for j in range(m)]
        S = [(round(x, 6), round(y, 6)) for x, y in S]
    elif kind == 'jitter':
        m = int(math.sqrt(n))
        P = box(0, 0, 100, 100)
        S = [((i + .5 + rng.uniform(-.3, .3)) * 100 / m, (j + .5 + rng.uniform(-.3, .3)) * 100 / m)
             for i in range(m) for j in range(m)]
    elif kind == 'parabola':
        P = box(-1, -1, 101, 101)
        S = [(x, .01 * x * x) for x in (rng.uniform(0, 100) for _ in range(n))]
    elif kind == 'spiral':
        P = box(0, 0, 100, 100)
        S = [(50 + 48 * math.sqrt(k / n) * math.cos(2.39996 * k), 50 + 48 * math.sqrt(k / n) * math.sin(2.39996 * k))
             for k in range(1, n)]
    from lib.oracle import hull, in_convex
    H = hull([(float(x), float(y)) for x, y in P])
    S = [s for s in dict.fromkeys(S) if in_convex(H, s, True)]
    rng.shuffle(S)
    return P, S


BIGKINDS = ['uniform', 'clusters', 'grid', 'jitter', 'parabola', 'spiral']


def jobs(seed, tier):
    out = fixed_jobs() + gen_jobs(seed, 8 if tier == 'quick' else 200)
    for k in BIGKINDS:
        for n, reps in ([(300, 1), (900, 1)] if tier == 'quick' else [(200, 12), (1000, 6), (4000, 2), (12000, 1)]):
            out += [{'big': k, 'n': n, 'seed': '%s.%s' % (seed, r), 'weight': n} for r in range(reps)]
    return out


def describe(job):
    if 'big' in job:
        return job
    from lib import diagram
    return diagram.describe(job)


def run(job, mon):
    if 'big' in job:
        poly, sites = big(job['big'], job['n'], job['seed'])
        H = gen.hull([(float(x), float(y)) for x, y in poly])
        scale = max(p[0] for p in H) - min(p[0] for p in H) + max(p[1] for p in H) - min(p[1] for p in H)
        tol, total = 1e-6 * scale, abs(farea(H))
        mon.see('large diagrams')
        mon.top('sites', len(sites))
        mon.shape('big', job['big'], job['n'])
    else:
        c = judge(job, mon)
        if not c:
            return
        poly, sites, o = c
        tol, total, H = o.tol, float(o.total), [(float(x), float(y)) for x, y in gen.hull(o.poly)]
        scale = o.scale
    v = build(poly, sites)
    maxabs = max(max(abs(a), abs(b)) for a, b in H)
    fs = np.array([[float(x), float(y)] for x, y in sites])
    limit = 2 * len(v.edges) + 4
    cells = []
    sub = 0.0
    sign = 0
    per = 0
    for i, s in enumerate(v.sites):
        C = [xy(e.origin) for e in walk(s, limit)]
        a = farea(C)
        sub += a
        p = sum(dist(C[k], C[k - 1]) for k in range(len(C)))
        per += p
        if abs(a) <= tol * p:
            mon.see('slivers')
        elif sign and (a > 0) != (sign > 0):
            mon.bad('the cell of site %s turns the other way' % coords(s))
        else:
            sign = 1 if a > 0 else -1
        cells.append(C)
    mon.check(abs(abs(sub) - total) <= 2 * tol * per + 1e-13 * len(sites) * (maxabs + scale) ** 2,
              'the areas of the cells add up to %r instead of %r', abs(sub), total)
    rng = random.Random(str(job))
    for i, C in enumerate(cells):
        mon.see('cells')
        n = len(C)
        for k in range(n):
            a, b, c = C[k - 1], C[k], C[(k + 1) % n]
            L = dist(a, c)
            h = ((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])) * sign
            if h < -8 * tol * L - 1e-15:
                # b is on the wrong side of the line a-c, further than rounding explains
                mon.bad('the cell of site %d is not convex at %r' % (i, b))
                break
        p = (fs[i][0], fs[i][1])
        for k in range(n):
            a, b = C[k], C[(k + 1) % n]
            L = dist(a, b)
            if L > 1e3 * tol and ((b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])) * sign < -8 * tol * L:
                mon.bad('site %d is not in its own cell' % i)
                break
        if len(cells) > 200 and rng.random() > 200 / len(cells):
            continue
        # random points of the cell, and points close to its corners
        cx, cy = sum(q[0] for q in C) / n, sum(q[1] for q in C) / n
        for _ in range(4):
            k = rng.randrange(n)
            u, w = sorted((rng.random(), rng.random()))
            if rng.random() < .4:
                u, w = .001, .999
            q = (u * cx + (w - u) * C[k][0] + (1 - w) * C[(k + 1) % n][0],
                 u * cy + (w - u) * C[k][1] + (1 - w) * C[(k + 1) % n][1])
            d = np.hypot(fs[:, 0] - q[0], fs[:, 1] - q[1])
            if d[i] > d.min() + 16 * tol:
                mon.bad('the point %r is in the cell of site %d at distance %r, but site %d is at distance %r'
                        % (q, i, float(d[i]), int(d.argmin()), float(d.min())))
                return
            mon.see('queries answered')
    # random points of the polygon: the cell of their nearest site has to contain them
    for _ in range(40):
        q = uniform_in(rng, H, 1)[0]
        d = np.hypot(fs[:, 0] - q[0], fs[:, 1] - q[1])
        i = int(d.argmin())
        C = cells[i]
        for k in range(len(C)):
            a, b = C[k], C[(k + 1) % len(C)]
            L = dist(a, b)
            if L > 1e3 * tol and ((b[0] - a[0]) * (q[1] - a[1]) - (b[1] - a[1]) * (q[0] - a[0])) * sign < -16 * tol * L:
                mon.bad('the cell of site %d does not contain %r although it is the nearest site' % (i, q))
                return
        mon.see('queries answered')
