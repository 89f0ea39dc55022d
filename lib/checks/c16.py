"""C16: a bounding polygon is the same whatever order its corners are given in."""
import itertools
import random
from decimal import localcontext
from fractions import Fraction as F
from lib.diagram import *
from lib.oracle import hull, in_convex, cross, area
from lib.gen import random_convex, regular, box, uniform_in

RULE = ('Random convex polygons (boxes, triangles, regular, skinny, with redundant corners, far from the origin), all or many '
        'orders of their corners; corners, extremes, diagrams and the inside test (random points, points level with corners, '
        'points very close to the border) are compared. Distinct: by polygon.')
ASSUMPTIONS = ['the polygon is convex with non-zero area', 'points on the border may be reported either way']
MUST_SEE = ['orders', 'inside tests', 'inside tests level with a corner', 'inside tests close to the border', 'inside tests within 1e-13 of the border', 'inside tests with many digits', 'boxes', 'diagrams compared']


def jobs(seed, tier):
    n = 800 if tier == 'quick' else 8000
    return [{'poly_seed': '%s.%s' % (seed, k)} for k in range(n)]


def describe(job):
    if 'poly_seed' not in job:
        return job
    return dict(job, polygon=[[str(a) for a in p] for p in shape(random.Random('poly' + job['poly_seed']))[1]])


def shape(rng):
    kind = rng.choice(['box', 'box', 'tri', 'convex', 'convex', 'regular', 'redundant', 'skinny', 'offset', 'tinyoff', 'decimal', 'many', 'near', 'near', 'tiny', 'tiny'])
    if kind == 'box':
        l, b = rng.randint(-500, 400), rng.randint(-500, 400)
        P = box(l, b, l + rng.choice([1, 7, 100, 1000]), b + rng.choice([1, 5, 100]))
    elif kind == 'tri':
        while True:
            P = [(rng.randint(-50, 50), rng.randint(-50, 50)) for _ in range(3)]
            if area([(F(x), F(y)) for x, y in P]) > 50:
                break
    elif kind == 'convex':
        P = random_convex(rng)
    elif kind == 'regular':
        P = [(round(x, 6), round(y, 6)) for x, y in regular(rng, rng.randint(3, 16))]
    elif kind == 'many':
        P = regular(rng, rng.choice([rng.randint(20, 60), rng.randint(60, 300), rng.choice([64, 100, 128, 256, 257])]))
    elif kind == 'redundant':
        P = [(0, 0), (50, 0), (100, 0), (100, 30), (100, 100), (20, 100), (0, 100)]
        P = P[:rng.choice([5, 6, 7])] if rng.random() < .3 else P
    elif kind == 'skinny':
        P = rng.choice([[(0, 0), (100, 1), (100, 3)], [(0, 0), (1, 100), (2, 100)], [(0, 0), (100, 99), (99, 100)],
                        [(0, 0), (1000, 1), (1000, 2), (0, 1)]])
    elif kind == 'offset':
        a, b = rng.choice([10 ** 4, -10 ** 5]), rng.choice([10 ** 5, -3333])
        P = [(x + a, y + b) for x, y in random_convex(rng)]
    elif kind == 'tinyoff':
        P = [(x / 1000 - .07, y / 1000) for x, y in random_convex(rng)]
    elif kind == 'tiny':
        k = Decimal(10) ** -rng.randint(2, 22)
        a, b = rng.choice([(0, 0), (0, 0), (-30, -40), (-120, 15)])
        P = [((x + a) * k, (y + b) * k) for x, y in rng.choice([random_convex(rng), box(0, 0, 100, 70)])]
    elif kind == 'near':
        # corners that are seen in almost the same direction from the center: sides that are short, corners that are cut off
        P = [(x * 1000, y * 1000) for x, y in random_convex(rng, rng.randint(3, 6))]
        for _ in range(rng.randint(1, 3)):
            k = rng.randrange(len(P))
            a, b, c = P[k - 1], P[k], P[(k + 1) % len(P)]
            e, g = (Decimal(10) ** -rng.randint(2, 7) * rng.randint(1, 9) for _ in range(2))
            P[k:k + 1] = [(b[0] + (a[0] - b[0]) * e, b[1] + (a[1] - b[1]) * e), (b[0] + (c[0] - b[0]) * g, b[1] + (c[1] - b[1]) * g)]
    else:
        P = [(str(x) + '.' + str(rng.randint(10, 99)), str(y) + '.5') for x, y in random_convex(rng, 5)]
        H = hull([(fr(x), fr(y)) for x, y in P])
        P = [p for p in P if (fr(p[0]), fr(p[1])) in H]
        if len(P) < 3:
            P = box(0, 0, 3, 4)
    return kind, P


def with_digits(c, n):
    with localcontext() as ctx:
        ctx.prec = n
        return Decimal(c.numerator) / Decimal(c.denominator)


def run(job, mon):
    f = api()
    rng = random.Random('poly' + job['poly_seed'])
    kind, P = shape(rng)
    H = hull([(fr(x), fr(y)) for x, y in P], keep_collinear=True)
    if len(H) != len(set((fr(x), fr(y)) for x, y in P)) or len(H) != len(P):
        mon.skip('not convex')
        return
    mon.shape(tuple(map(str, H)))
    xs, ys = [p[0] for p in H], [p[1] for p in H]
    size = max(max(xs) - min(xs), max(ys) - min(ys))
    orders = list(itertools.permutations(range(len(P)))) if len(P) <= 4 else []
    if not orders:
        orders = [list(range(len(P))), list(range(len(P)))[::-1]] + [rng.sample(range(len(P)), len(P)) for _ in range(8)]
    polygons = []
    for order in orders:
        polygons.append(f.Polygon([P[i] for i in order]))
        mon.see('orders')
    is_box = kind == 'box'
    if is_box:
        polygons.append(f.BoundingBox(P[0][0], P[2][0], P[0][1], P[2][1]))
        mon.see('boxes')
    for q in polygons:
        got = [exy(p) for p in q.points]
        mon.check(sorted(got) == sorted(H), 'the corners %s are not the given ones', q.points)
        if sorted(got) == sorted(H):
            k = got.index(H[0])
            fwd = got[k:] + got[:k]
            bwd = [fwd[0]] + fwd[1:][::-1]
            mon.check(H in (fwd, bwd), 'the corners %s are not in order around the polygon', q.points)
        mon.check([(fr(x), fr(y)) for x, y in q.get_coordinates()] == got, 'get_coordinates differs from the corners')
        for name, val in (('min_x', min(xs)), ('max_x', max(xs)), ('min_y', min(ys)), ('max_y', max(ys))):
            mon.check(fr(getattr(q, name)) == val, '%s is %s instead of %s', name, getattr(q, name), float(val))
    # the inside test
    pts = []
    for _ in range(12):
        pts.append((F(rng.uniform(-.3, 1.3)) * (max(xs) - min(xs)) + min(xs), F(rng.uniform(-.3, 1.3)) * (max(ys) - min(ys)) + min(ys)))
    for x, y in rng.sample(H, min(4, len(H))):
        w = F(rng.uniform(-1.2, 1.2)) * size
        pts += [(x + w, y), (x, y + w)]
        mon.see('inside tests level with a corner', 2)
    for _ in range(8):
        k = rng.randrange(len(H))
        a, b = H[k], H[(k + 1) % len(H)]
        t = F(rng.choice([0, .5, 1, rng.random(), rng.random()]))
        e = size * F(rng.choice([1, -1])) / 10 ** rng.choice([3, 6, 9, 11, 14, 17])
        nx, ny = b[1] - a[1], a[0] - b[0]
        L = F(math.hypot(nx, ny))
        pts.append((a[0] + t * (b[0] - a[0]) + e * nx / L, a[1] + t * (b[1] - a[1]) + e * ny / L))
        mon.see('inside tests close to the border')
    for x, y in pts:
        # as the decimals that the package works with
        if kind == 'tiny' or rng.random() < .5:
            d = f.Coordinate(*(with_digits(c, 35) for c in (x, y)))
            mon.see('inside tests with many digits')
        else:
            d = f.Coordinate(round(float(x), 12) if size < 10 ** 3 else float(x), float(y) if rng.random() < .5 else round(float(y), 12))
        if rng.random() < .3:
            d = f.Point(d.xd, d.yd)
        p = exy(d)
        # on the border or on it up to the digits of a decimal
        margin = min(abs(float(cross(H[k], H[(k + 1) % len(H)], p))) / math.hypot(float(H[k][0] - H[k - len(H) + 1][0]), float(H[k][1] - H[k - len(H) + 1][1]))
                     for k in range(len(H)))
        mon.see('inside tests within 1e-13 of the border', margin < 1e-13 * float(size))
        if margin <= 1e-21 * float(size + max(map(abs, xs + ys))):
            inh = None
            # on the line through a side, but outside of the polygon: still decided
            if not in_convex(H, p) and min(seg_dist((float(p[0]), float(p[1])), (float(H[k][0]), float(H[k][1])),
                                                    (float(H[(k + 1) % len(H)][0]), float(H[(k + 1) % len(H)][1])))
                                           for k in range(len(H))) > 1e-9 * float(size):
                inh = False
        else:
            inh = in_convex(H, p, True)
        if inh is None:
            continue
        for q in rng.sample(polygons, min(3, len(polygons))):
            mon.check(bool(q.inside(d)) == inh, 'inside(%s) is %s for the polygon %s', coords(d), q.inside(d), q.points)
            mon.see('inside tests')
    # the same diagram
    fp = [(float(x), float(y)) for x, y in H]
    S = [(round(x, 4), round(y, 4)) for x, y in uniform_in(rng, fp, rng.randint(1, 6), 400)]
    S = [s for s in dict.fromkeys(S) if in_convex(H, (fr(s[0]), fr(s[1])), True)]
    if not S or size < F(1, 100):
        return
    o = Oracle(P, S)
    if not o.wellposed:
        mon.skip('diagram is ill-conditioned')
        return
    for q in rng.sample(polygons, min(3, len(polygons))) + polygons[-1:]:
        v = build(None, S, bounding=q)
        pts = cell_points(v)
        for i in range(len(S)):
            m = compare_cells([(float(x), float(y)) for x, y in pts[i]], o.fcells[i], o.tol)
            if m:
                mon.bad('in the polygon %s, the cell of %s %s' % (q.points, S[i], m))
                return
        mon.see('diagrams compared')
