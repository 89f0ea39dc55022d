"""C23: a bounding circle keeps exactly the part of the diagram that is inside it."""
import random
from lib.diagram import *
from lib.checks import c05

RULE = ('Circles of any size and position (numbers of several types) with sites that are random, clustered, on a grid, in a row or '
        'column, cocircular or near the rim. The edges are compared with the intersections of exact bisector intervals and the '
        'circle; the links are checked around every cell and the outline against the nearest sites along the circle. '
        'Distinct: by circle, layout and adjacency.')
ASSUMPTIONS = ['sites are distinct', 'no Voronoi vertex within 1e-7 radii of the circle and no edge that is almost tangent',
               'edges along the circle are straight, as documented']
MUST_SEE = ['circles', 'edges matched', 'edges between two vertices', 'edges cut once', 'chords', 'outline edges', 'single sites', 'cells walked',
            'vertices inside', 'vertices outside that were cut off', 'level pairs', 'large circles', 'far circles', 'tiny circles', 'circles in the cell of a single site',
            'cells that do not reach the circle', 'unmoved circles used again']
LIMIT = 90
LAYOUTS = ['out', 'outgrid', 'around', 'rand', 'grid', 'row', 'col', 'cluster', 'rim', 'ring', 'pair', 'one', 'nearlevel', 'nearup', 'rows', 'cols']


def jobs(seed, tier):
    n = 20 if tier == 'quick' else 400
    return [{'layout': k, 'seed': '%s.%s' % (seed, s)} for k in LAYOUTS for s in range(n if k not in ('one',) else n // 4)]


def make(job):
    rng = random.Random(job['layout'] + job['seed'])
    kind = job['layout']
    r = rng.choice([5, 9, 50, '.5', '.01', 1000, 100000, 2.5, Decimal('7.25')])
    cx, cy = rng.choice([(5, 5), (0, 0), (-20, 30), (100, -3000), (7000, 100), (.3, -999), ('12.5', 10 ** 6), (0, -1000), (Decimal(-3), 1e-3)])
    if rng.random() < .25:
        # other units
        r = rng.choice([1e-6, 3e-9, 2. ** -20, Decimal('1e-13'), 1e8, 3 * 10 ** 12])
        k = fr(r)
        cx, cy = rng.choice([(0, 0), (0, 0), (float(3 * k), float(-2 * k)), (float(k / 7), float(-40 * k))])
    R, X, Y = float(r), float(cx), float(cy)
    n = {'pair': 2, 'one': 1}.get(kind) or rng.choice([2, 3, 4, 6, 10, 16, 25, 40])
    digits = rng.random() < .7
    S = []
    t = 0
    m = rng.randint(2, 6)
    while len(S) < n and t < 2000:
        t += 1
        if kind in ('rand', 'pair', 'one'):
            p = (rng.uniform(-1, 1), rng.uniform(-1, 1))
        elif kind == 'grid':
            p = (rng.randint(-m, m) / (m + .5), rng.randint(-m, m) / (m + .5))
        elif kind == 'out':
            p = (rng.uniform(-3, 3), rng.uniform(-3, 3))
        elif kind == 'outgrid':
            p = (rng.randint(-m, m) / 2.25, rng.randint(-m, m) / 2.25)
        elif kind == 'around':
            a, d = rng.uniform(0, 7), rng.choice([.5, .99, 1.01, 1.5, 4, 30])
            p = (d * math.cos(a), d * math.sin(a))
        elif kind == 'row':
            p = (rng.uniform(-1, 1), .25)
        elif kind == 'col':
            p = (.25, rng.uniform(-1, 1))
        elif kind in ('nearlevel', 'nearup'):
            # edges that are nearly level or nearly upright
            e = rng.choice([1, -1]) * 10 ** -rng.uniform(2, 13)
            a, b = rng.uniform(-.9, .9), rng.uniform(-.6, .6)
            if len(S) % 2:
                a, b = last
                a, b = (a + e, -b) if kind == 'nearlevel' else (-b, a + e)
            else:
                last = a, b
                a, b = (a, b) if kind == 'nearlevel' else (b, a)
            p = (a, b)
        elif kind in ('rows', 'cols'):
            # sites that are level (or upright) pairs but in numbers with many digits, and vertices at the end of their edges
            if not S or rng.random() < .3:
                level = rng.uniform(-.9, .9)
            p = (rng.uniform(-1, 1), level)
            if kind == 'cols':
                p = p[::-1]
        elif kind == 'cluster':
            p = (rng.gauss(.5, .05), rng.gauss(.3, .05))
        elif kind == 'rim':
            a = rng.uniform(0, 7)
            p = (.99 * math.cos(a), .99 * math.sin(a))
        else:
            a, c = rng.choice([(3, 4), (4, 3), (5, 0), (0, 5)])
            p = (rng.choice([a, -a]) / 8 + .1, rng.choice([c, -c]) / 8 - .2)
        if p[0] ** 2 + p[1] ** 2 >= .995 and kind[:3] != 'out' and kind != 'around':
            continue
        p = (round(X + R * p[0], 9), round(Y + R * p[1], 9)) if kind in ('grid', 'outgrid', 'ring') and R > .001 else (X + R * p[0], Y + R * p[1])
        if kind in ('rows', 'cols') and digits:
            level_ = lambda v: Decimal(repr(v)) + Decimal(repr(v)) * Decimal('1e-18')
            p = (level_(p[0]), level_(p[1]))
        if p not in S:
            S.append(p)
    return (cx, cy, r), S


def describe(job):
    c, S = make(job)
    return dict(job, circle=[str(t) for t in c], sites=[[repr(x), repr(y)] for x, y in S])


def expected(circle, S):
    """Everything in units of the circle: the sites, and for every pair of sites the ends of their edge with what each end
    is ('vertex' or 'circle'); or None where the answer is not clear. And the Voronoi vertices."""
    cx, cy, r = (fr(t) for t in circle)
    U = [((fr(x) - cx) / r, (fr(y) - cy) / r) for x, y in S]
    out, vertices, unclear = {}, {}, False
    n = len(U)
    for i in range(n):
        xi, yi = U[i]
        for j in range(i + 1, n):
            xj, yj = U[j]
            mx, my, dx, dy = (xi + xj) / 2, (yi + yj) / 2, yi - yj, xj - xi
            lo = hi = None
            ok = True
            for k in range(n):
                if k in (i, j):
                    continue
                xk, yk = U[k]
                a, b = 2 * (xk - xi), 2 * (yk - yi)
                den = a * dx + b * dy
                num = xk * xk + yk * yk - xi * xi - yi * yi - a * mx - b * my
                if den == 0:
                    ok = ok and num >= 0
                elif den > 0:
                    hi = num / den if hi is None else min(hi, num / den)
                else:
                    lo = num / den if lo is None else max(lo, num / den)
                if not ok or lo is not None and hi is not None and lo >= hi:
                    ok = False
                    break
            if not ok:
                continue
            A, B, C = float(dx * dx + dy * dy), float(2 * (mx * dx + my * dy)), float(mx * mx + my * my - 1)
            for t in (lo, hi):
                if t is not None:
                    p = (mx + t * dx, my + t * dy)
                    d = math.sqrt(p[0] ** 2 + p[1] ** 2)
                    vertices[p] = d
                    unclear |= abs(d - 1) < 1e-7
            D = B * B - 4 * A * C
            if D < 1e-12 * A:
                unclear |= D > -1e-12 * A
                continue
            s = math.sqrt(D)
            # the root without cancellation first
            q = -(B + (s if B >= 0 else -s)) / 2
            t0, t1 = sorted([q / A, C / q])
            a, b = (t0 if lo is None else max(float(lo), t0)), (t1 if hi is None else min(float(hi), t1))
            if b <= a:
                continue
            L = math.sqrt(A)
            ends = [(float(mx) + t * float(dx), float(my) + t * float(dy)) for t in (a, b)]
            kinds = ['circle' if a == t0 else 'vertex', 'circle' if b == t1 else 'vertex']
            out[i, j] = (ends, kinds, (b - a) * L)
    return U, out, vertices, unclear


def run(job, mon):
    from foronoi import Voronoi
    from foronoi.contrib import BoundingCircle
    circle, S = make(job)
    cx, cy, r = (float(fr(t)) for t in circle)
    U, want, vertices, unclear = expected(circle, S)
    if unclear:
        mon.skip('a vertex on the circle or an edge tangent to it')
        return
    off = max(abs(cx), abs(cy))
    # a float far from the origin has an absolute rounding error, which an edge's direction magnifies
    tol = 1e-9 + 16 * 2.3e-16 * (off + r) / r
    mon.see('circles')
    mon.see('large circles', r > 500)
    mon.see('tiny circles', r < 1e-4)
    mon.see('far circles', off > 100 * r)
    mon.see('level pairs', sum(a[1] == b[1] for i, a in enumerate(S) for b in S[:i]))
    mon.shape(str(circle), job['layout'], tuple(sorted(want)))
    bounding = BoundingCircle(*circle)
    for flag in (True, False):
        v = Voronoi(bounding, remove_zero_length_edges=flag)
        v.create_diagram(S)
        if not flag:
            mon.see('unmoved circles used again')
        if not mon.check([(s.xd, s.yd) for s in v.sites] == [(Decimal(str(x)), Decimal(str(y))) for x, y in S], 'the sites changed'):
            return
        if not want:
            mon.see('single sites' if len(S) == 1 else 'circles in the cell of a single site')
            mon.check(not v.edges and not v.vertices, 'the only cell has %d edges and %d vertices', len(v.edges), len(v.vertices))
            for s in v.sites:
                mon.check(s.first_edge is None and s.borders() == [] and s.vertices() == [], 'a site without edges has borders')
            continue
        unit = {}
        for x in v.vertices:
            p = ((float(F(x.xd) - fr(circle[0]))) / r, float(F(x.yd) - fr(circle[1])) / r)
            unit[id(x)] = p
            mon.check(math.hypot(*p) <= 1 + tol, 'flag %s: the vertex %s is outside the circle', flag, coords(x))
        ix = index_of(v)
        got, outline = {}, []
        for e in v.edges:
            a, b = ix.get(id(e.incident_point)), ix.get(id(e.twin.incident_point))
            if a is None or b is None or a == b or id(e.origin) not in unit or id(e.twin.origin) not in unit:
                mon.bad('flag %s: an edge has a site or an end that is not in the diagram' % flag)
                return
            p, q = unit[id(e.origin)], unit[id(e.twin.origin)]
            if a < 0 or b < 0:
                outline.append((p, q, max(a, b)))
            else:
                got.setdefault((min(a, b), max(a, b)), []).append((p, q))
        for pair, es in got.items():
            long = [s for s in es if dist(*s) > 1e-6]
            if long and not mon.check(pair in want, 'flag %s: there is an edge between the sites %s, which have no common border in the circle', flag, pair):
                continue
            mon.check(len(long) <= 1, 'flag %s: there are %d edges between the sites %s', flag, len(long), pair)
            for p, q in long:
                (a, b), kinds, length = want[pair]
                # the edge is nearly undetermined where two sites nearly coincide
                sep = dist(*[tuple(map(float, U[k])) for k in pair])
                t = tol * (1 + 1e-3 / sep)
                d = min(max(dist(p, a), dist(q, b)), max(dist(p, b), dist(q, a)))
                mon.check(d <= t, 'flag %s: the edge between the sites %s is %r-%r instead of %r-%r (in units of the circle)', flag, pair, p, q, a, b)
                mon.see('edges matched')
                mon.see({0: 'edges between two vertices', 1: 'edges cut once', 2: 'chords'}[kinds.count('circle')])
        for pair, (ends, kinds, length) in want.items():
            mon.check(length < 2e-6 or pair in got, 'flag %s: there is no edge between the sites %s', flag, pair)
        for p, d in vertices.items():
            if d < 1:
                f = (float(p[0]), float(p[1]))
                mon.check(min(dist(f, q) for q in unit.values()) <= 10 * tol, 'flag %s: there is no vertex at %r (in units of the circle)', flag, f)
                mon.see('vertices inside')
            else:
                mon.see('vertices outside that were cut off')
        inside = [p for p, d in vertices.items() if d < 1]
        near = Nearest([(float(p[0]), float(p[1])) for p in inside] or [(9, 9)])
        rim = []
        for x in v.vertices:
            p = unit[id(x)]
            if abs(math.hypot(*p) - 1) <= tol:
                rim.append(p)
            else:
                mon.check(near(p)[1] <= 10 * tol, 'flag %s: the vertex %s is neither on the circle nor a Voronoi vertex', flag, coords(x))
        # the outline: from every end on the circle to the next one, in the cell of the sites nearest to the arc
        rim.sort(key=lambda p: math.atan2(p[1], p[0]))
        mon.check(len(outline) == len(rim), 'flag %s: there are %d edges between the %d ends on the circle', flag, len(outline), len(rim))
        FU = np.array([[float(x), float(y)] for x, y in U])
        arcs = {}
        for k, p in enumerate(rim):
            q = rim[(k + 1) % len(rim)]
            a, b = math.atan2(p[1], p[0]), math.atan2(q[1], q[0])
            if b <= a:
                b += 2 * math.pi
            m = (math.cos((a + b) / 2), math.sin((a + b) / 2))
            arcs[frozenset((p, q))] = arcs.get(frozenset((p, q)), []) + [(b - a, m)]
        for p, q, i in outline:
            mon.see('outline edges')
            if not mon.check(frozenset((p, q)) in arcs, 'flag %s: an edge on the outline joins ends that are not next to each other', flag):
                continue
            ok = False
            for w, m in arcs[frozenset((p, q))]:
                d = np.hypot(FU[:, 0] - m[0], FU[:, 1] - m[1])
                ok |= w < 1e-6 or d[i] <= d.min() + 1e-9
            mon.check(ok, 'flag %s: the outline edge %r-%r has the site %d, which is not the nearest', flag, p, q, i)
        for i in range(len(S)):
            mine = [(p, q) for p, q, k in outline if k == i]
            mon.check(len(set(mine)) == len(mine), 'flag %s: site %d has the same outline edge twice', flag, i)
        empty = set(range(len(S))) - {i for pair in want for i in pair}
        mon.see('cells that do not reach the circle', len(empty))
        for i in empty:
            mon.check(v.sites[i].borders() == [] and v.sites[i].vertices() == [], 'flag %s: site %d has borders in the circle', flag, i)
        c05.verify(v, flag, tol * r, mon, empty=empty)
        if mon.violations:
            return
