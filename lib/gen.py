"""Workloads: bounding polygons with sites in them. Every case is a function of (kind, seed) only."""
import math
import random
from decimal import Decimal
from fractions import Fraction as F

from lib.oracle import hull, in_convex, fr, area

BOX100 = [(0, 0), (100, 0), (100, 100), (0, 100)]


def box(l, b, r, t):
    return [(l, b), (r, b), (r, t), (l, t)]


def uniform_in(rng, poly, n, tries=4000):
    H = hull([(float(x), float(y)) for x, y in poly])
    xs = [p[0] for p in H]
    ys = [p[1] for p in H]
    out = []
    while len(out) < n and tries:
        tries -= 1
        p = (rng.uniform(min(xs), max(xs)), rng.uniform(min(ys), max(ys)))
        if in_convex(H, p, strict=True):
            out.append(p)
    return out


def some_n(rng):
    return rng.choice([1, 2, 3, 3, 4, 4, 5, 6, 7, 8, 10, 12, 15, 20, 25])


def random_convex(rng, m=None, size=100):
    while True:
        P = hull([(rng.randint(0, size), rng.randint(0, size)) for _ in range(m or rng.randint(3, 12))])
        if len(P) >= 3 and area([(F(a), F(b)) for a, b in P]) > size * size / 20:
            return P


def regular(rng, m, R=50, cx=50, cy=50, phase=None):
    phase = rng.uniform(0, 6.28) if phase is None else phase
    return [(cx + R * math.cos(phase + 2 * math.pi * k / m), cy + R * math.sin(phase + 2 * math.pi * k / m))
            for k in range(m)]


PYTH = [(3, 4, 5), (4, 3, 5), (7, 24, 25), (24, 7, 25), (5, 12, 13), (8, 15, 17), (20, 21, 29)]


# each generator: rng -> (poly, sites)

def g_box(rng):
    return BOX100, uniform_in(rng, BOX100, some_n(rng))


def g_boxmid(rng):
    return BOX100, uniform_in(rng, BOX100, rng.choice([30, 40, 60]))


def g_boxneg(rng):
    P = rng.choice([box(-100, -100, 0, 0), box(-100, 0, 0, 100), box(-300, -50, -200, -20), box(-7, -90, 3, -1)])
    return P, uniform_in(rng, P, some_n(rng))


def g_boxcen(rng):
    P = box(-50, -50, 50, 50)
    return P, uniform_in(rng, P, some_n(rng))


def g_boxfar(rng):
    o, q = rng.choice([1000, -1000, 12345, 0]), rng.choice([1000, -5000, 54321])
    P = box(o, q, o + 100, q + 100)
    return P, uniform_in(rng, P, some_n(rng))


def g_boxfrac(rng):
    P = box(rng.uniform(-5, 0), rng.uniform(-5, 0), rng.uniform(10, 20), rng.uniform(10, 20))
    return P, uniform_in(rng, P, some_n(rng))


def g_tri(rng):
    P = rng.choice([[(0, 100), (100, 100), (50, 0)], [(0, 0), (100, 0), (50, 100)], [(0, 0), (90, 30), (20, 100)],
                    [(-40, 10), (80, -35), (30, 90)]])
    return P, uniform_in(rng, P, some_n(rng))


def g_righttri(rng):
    P = rng.choice([[(0, 0), (100, 0), (0, 100)], [(0, 0), (100, 0), (100, 100)], [(0, 100), (100, 100), (100, 0)],
                    [(-5, -5), (-5, 95), (60, 95)]])
    return P, uniform_in(rng, P, some_n(rng))


def g_skinny(rng):
    P = rng.choice([[(0, 0), (100, 3), (50, 8)], [(0, 0), (4, 0), (1, 100)], [(0, 0), (100, 90), (90, 100)],
                    [(0, 0), (100, 1), (100, 6), (0, 4)]])
    return P, uniform_in(rng, P, some_n(rng))


def g_conv(rng):
    P = random_convex(rng)
    return P, uniform_in(rng, P, some_n(rng))


def g_convneg(rng):
    P = [(x - 70, y - 130) for x, y in random_convex(rng)]
    return P, uniform_in(rng, P, some_n(rng))


def g_regular(rng):
    P = regular(rng, rng.choice([3, 5, 6, 7, 8, 12, 20, 40]))
    return P, uniform_in(rng, P, some_n(rng))


def g_redundant(rng):
    """a polygon with extra corners in the middle of its sides"""
    P = [(0, 0), (50, 0), (100, 0), (100, 30), (100, 100), (20, 100), (0, 100)]
    if rng.random() < .5:
        P = [(x * 2 - 60, y - 40) for x, y in P]
    return P, uniform_in(rng, P, some_n(rng))


def g_wide(rng):
    W, Hh = rng.choice([(1000, 10), (300, 20), (5000, 100)])
    P = box(0, 0, W, Hh)
    return P, uniform_in(rng, P, some_n(rng))


def g_tall(rng):
    W, Hh = rng.choice([(10, 1000), (20, 300), (100, 5000)])
    P = box(-3, -7, W, Hh)
    return P, uniform_in(rng, P, some_n(rng))


def g_tiny(rng):
    s = rng.choice([1e-3, 1e-6, 1e-2, 0.5])
    P = box(0, 0, s, s)
    return P, uniform_in(rng, P, some_n(rng))


def g_huge(rng):
    s = rng.choice([1e4, 1e6, 1e9])
    P = box(0, 0, s, s)
    return P, uniform_in(rng, P, some_n(rng))


def g_cluster(rng):
    cx, cy = rng.uniform(10, 90), rng.uniform(10, 90)
    r = rng.choice([1, .1, 4])
    S = [(cx + rng.uniform(-r, r), cy + rng.uniform(-r, r)) for _ in range(some_n(rng))]
    if rng.random() < .5:
        S += uniform_in(rng, BOX100, rng.randint(1, 5))
    return BOX100, S


def g_edgecluster(rng):
    """sites all near one side or corner: edges are cut far from the sites"""
    cx, cy = rng.choice([(3, 50), (97, 50), (50, 3), (50, 97), (4, 4), (96, 96), (4, 96), (96, 4)])
    return BOX100, [(cx + rng.uniform(-2, 2), cy + rng.uniform(-2, 2)) for _ in range(some_n(rng))]


def g_samey(rng):
    ys = [rng.uniform(5, 95) for _ in range(rng.randint(1, 3))]
    return BOX100, [(rng.uniform(5, 95), rng.choice(ys)) for _ in range(some_n(rng))]


def g_samex(rng):
    xs = [rng.uniform(5, 95) for _ in range(rng.randint(1, 3))]
    return BOX100, [(rng.choice(xs), rng.uniform(5, 95)) for _ in range(some_n(rng))]


def g_toprow(rng):
    """the topmost sites share their y-coordinate"""
    y = rng.uniform(50, 95)
    S = [(rng.uniform(5, 95), y) for _ in range(rng.randint(2, 6))]
    S += [(rng.uniform(5, 95), rng.uniform(5, y)) for _ in range(rng.randint(0, 12))]
    return BOX100, S


def g_lattice(rng):
    """coordinates from a coarse lattice, off the border: ties everywhere"""
    m = rng.choice([3, 5, 8, 12])
    P = box(-.137, -.3311, m + .1713, m + .2719)
    return P, [(rng.randint(0, m), rng.randint(0, m)) for _ in range(rng.choice([3, 5, 8, 12, 20, 30]))]


def g_intgrid(rng):
    m = rng.choice([4, 6, 10, 20])
    return box(0, 0, m, m), [(rng.randint(0, m), rng.randint(0, m)) for _ in range(some_n(rng))]


def g_grid(rng):
    a, b = rng.randint(1, 6), rng.randint(1, 6)
    sx, sy = rng.randint(3, 14), rng.randint(3, 14)
    x0, y0 = rng.randint(1, 10), rng.randint(1, 10)
    return BOX100, [(x0 + sx * i, y0 + sy * j) for i in range(a) for j in range(b)]


def g_gridf(rng):
    a, b = rng.randint(1, 6), rng.randint(1, 6)
    sx, sy = rng.uniform(3, 14), rng.uniform(3, 14)
    x0, y0 = rng.uniform(1, 10), rng.uniform(1, 10)
    return BOX100, [(round(x0 + sx * i, 4), round(y0 + sy * j, 4)) for i in range(a) for j in range(b)]


def g_diamond(rng):
    """a grid turned by an exact angle"""
    p, q, h = rng.choice(PYTH[:4])
    c, s = Decimal(p) / h, Decimal(q) / h
    d = rng.randint(4, 9)
    S = []
    for i in range(-3, 4):
        for j in range(-3, 4):
            if rng.random() < .7:
                S.append((50 + d * (c * i - s * j), 50 + d * (s * i + c * j)))
    P = box(-3, -5, 107, 113)
    return P, S or [(50, 50)]


def g_hex(rng):
    S = []
    s = rng.randint(3, 10)
    for i in range(rng.randint(2, 5)):
        for j in range(rng.randint(2, 5)):
            S.append((10 + 2 * s * j + (s if i % 2 else 0), 10 + 2 * s * i * 0.75))
    return BOX100, S


def g_circle(rng):
    """exactly cocircular sites"""
    R = rng.choice([5, 10, 25, 13, 17])
    pts = [(x, y) for x in range(-R, R + 1) for y in range(-R, R + 1) if x * x + y * y == R * R]
    S = rng.sample(pts, min(len(pts), rng.randint(4, 12)))
    S = [(50 + x + .5, 50 + y + .25) for x, y in S]
    if rng.random() < .3:
        S.append((50.5, 50.25))
    return BOX100, S + uniform_in(rng, BOX100, rng.randint(0, 4))


def g_circlef(rng):
    """sites on a circle up to rounding"""
    n = rng.randint(3, 24)
    R = rng.uniform(5, 40)
    S = [(50 + R * math.cos(2 * math.pi * k / n), 50 + R * math.sin(2 * math.pi * k / n)) for k in range(n)]
    if rng.random() < .5:
        S.append((50, 50))
    return BOX100, S


def g_rings(rng):
    S = [(50, 50)]
    for R in rng.sample([5, 10, 20, 25, 40], rng.randint(1, 3)):
        n = rng.randint(3, 9)
        ph = rng.uniform(0, 6)
        S += [(50 + R * math.cos(ph + 2 * math.pi * k / n), 50 + R * math.sin(ph + 2 * math.pi * k / n)) for k in range(n)]
    return BOX100, S


def g_spiral(rng):
    n = rng.randint(5, 40)
    a = rng.uniform(.3, 2.6)
    return BOX100, [(50 + k * 45 / n * math.cos(a * k), 50 + k * 45 / n * math.sin(a * k)) for k in range(1, n)]


def g_collinear(rng):
    dx, dy = rng.randint(-3, 3), rng.randint(-3, 3)
    if (dx, dy) == (0, 0):
        dx = 1
    ks = rng.sample(range(-14, 15), min(some_n(rng), 20))
    S = [(50 + k * dx, 50 + k * dy) for k in ks]
    if rng.random() < .3:
        S.append((rng.randint(5, 95) + .5, rng.randint(5, 95) + .25))
    return BOX100, S


def g_nearcol(rng):
    a, b, e = rng.uniform(-1, 1), rng.uniform(30, 60), 10 ** rng.uniform(-4, 0)
    S = []
    for _ in range(some_n(rng)):
        x = rng.uniform(5, 95)
        y = a * (x - 50) * .8 + b + rng.uniform(-e, e)
        if 0 < y < 100:
            S.append((x, y))
    return BOX100, S or [(1, 2)]


def g_onborder(rng):
    S = set()
    for _ in range(some_n(rng)):
        c, u = rng.choice([0, 1, 2, 3, 4]), rng.uniform(1, 99)
        S.add([(0, u), (100, u), (u, 0), (u, 100), (u, rng.uniform(1, 99))][c])
    if rng.random() < .4:
        S.add(rng.choice(BOX100))
    return BOX100, sorted(S)


def g_oncorners(rng):
    P = rng.choice([BOX100, [(0, 0), (100, 0), (0, 100)], [(0, 100), (100, 100), (50, 0)], random_convex(rng)])
    S = rng.sample(P, rng.randint(1, len(P)))
    return P, S + uniform_in(rng, P, rng.randint(0, 4))


def g_corner(rng):
    """pairs of sites whose bisector passes exactly through a corner of the polygon"""
    P = rng.choice([BOX100, box(-50, -20, 30, 90), [(0, 0), (100, 0), (0, 100)], [(0, 0), (90, 10), (70, 80), (10, 60)]])
    cx, cy = rng.choice(P)
    S = uniform_in(rng, P, rng.choice([0, 0, 1, 2, 4]))
    H = hull(P)
    for _ in range(rng.choice([1, 1, 2])):
        for _ in range(300):
            p, q, h = rng.choice(PYTH)
            c, s = F(p, h), F(q, h) * rng.choice([1, -1])
            dx, dy = rng.randint(-60, 60), rng.randint(-60, 60)
            a = (F(cx + dx), F(cy + dy))
            b = (cx + c * dx - s * dy, cy + s * dx + c * dy)
            if a == b or not (in_convex(H, a, True) and in_convex(H, b, True)):
                continue
            if not exact_decimal(b[0]) or not exact_decimal(b[1]):
                continue
            S += [(int(a[0]), int(a[1])), (dec(b[0]), dec(b[1]))]
            break
    return P, S or [(cx, cy)]


def exact_decimal(f):
    d = f.denominator
    while d % 2 == 0:
        d //= 2
    while d % 5 == 0:
        d //= 5
    return d == 1


def dec(f):
    return Decimal(f.numerator) / Decimal(f.denominator)


def g_mirror(rng):
    """layouts that are symmetric in x, in y or in both"""
    q = uniform_in(rng, box(0, 0, 50, 50), rng.randint(1, 6))
    q = [(round(x, 3), round(y, 3)) for x, y in q]
    m = rng.choice(['x', 'y', 'xy', 'd'])
    S = set()
    for x, y in q:
        S.add((x, y))
        if 'x' in m:
            S.add((-x, y))
        if 'y' in m:
            S.add((x, -y))
        if m == 'xy':
            S.add((-x, -y))
        if m == 'd':
            S.add((y, x))
    return box(-51, -52.5, 53, 50.25), sorted(S)


def g_few(rng):
    P = rng.choice([BOX100, box(-10, -10, 0, 0), [(0, 0), (100, 0), (0, 100)], random_convex(rng)])
    return P, uniform_in(rng, P, rng.randint(1, 3))


def g_fewlevel(rng):
    """two or three sites, level or upright"""
    P = rng.choice([BOX100, box(-100, -100, 0, 0), box(0, 0, 400, 10), box(0, 0, 10, 400)])
    (l, b), (r, t) = P[0], P[2]
    x, y = rng.uniform(l, r), rng.uniform(b, t)
    S = [(x, y)]
    for _ in range(rng.randint(1, 2)):
        S.append(rng.choice([(rng.uniform(l, r), y), (x, rng.uniform(b, t))]))
    return P, S


def g_twoclusters(rng):
    S = [(10 + rng.uniform(-1, 1), 10 + rng.uniform(-1, 1)) for _ in range(rng.randint(2, 8))]
    S += [(90 + rng.uniform(-1, 1), 85 + rng.uniform(-1, 1)) for _ in range(rng.randint(2, 8))]
    return BOX100, S


def g_decimal(rng):
    """many-digit decimal strings"""
    S = [(Decimal(rng.randint(1, 10 ** 22 - 1)) / 10 ** 20, Decimal(rng.randint(1, 10 ** 22 - 1)) / 10 ** 20)
         for _ in range(some_n(rng))]
    return BOX100, S


def g_tiedcircles(rng):
    """several circle events at the same sweep position: copies of a triangle or square side by side"""
    d = rng.choice([10, 15, 20])
    y = rng.randint(30, 70)
    t = rng.choice([[(0, 0), (3, 4), (6, 0)], [(0, 0), (4, 0), (4, 4), (0, 4)], [(0, 3), (4, 5), (4, 1)],
                    [(0, 0), (3, -4), (6, 0), (3, 5)]])
    S = []
    for k in range(rng.randint(2, 4)):
        S += [(7 + d * k + a, y + b) for a, b in t]
    if rng.random() < .5:
        S += [(x, y - 20 + rng.choice([0, .5])) for x, _ in S[:rng.randint(1, 4)]]
    return BOX100, S


def g_circlebottom(rng):
    """a site exactly at the bottom of, or straight below the centre of, the circle through three others"""
    R = rng.choice([5, 10, 25])
    pts = [(x, y) for x in range(-R, R + 1) for y in range(-R, R + 1) if x * x + y * y == R * R and y > -R]
    S = rng.sample(pts, 3) + [(0, rng.choice([-R, -R, -R - 3, -R - 1]))]
    S += rng.sample([(x, -R - 7 - k) for k, x in enumerate(range(-R, R))], rng.randint(0, 3))
    cx, cy = rng.randint(40, 60), rng.randint(50, 60)
    return box(-.5, -.25, 101, 102), [(cx + x, cy + y) for x, y in S]


def g_below(rng):
    """sites exactly below breakpoints: pairs of level sites, and one under the middle"""
    S = []
    x, y = rng.randint(10, 30), rng.randint(70, 90)
    for k in range(rng.randint(1, 4)):
        d = 2 * rng.randint(1, 8)
        S += [(x, y), (x + d, y), (x + d // 2, y - rng.randint(1, 30))]
        x += d + rng.randint(1, 6)
        y -= rng.choice([0, 0, 1, 5])
    return BOX100, S


def g_extremes(rng):
    """widely different distances between sites"""
    S = [(50 + 40 * 10 ** -rng.uniform(0, 4) * rng.choice([1, -1]), 50 + 40 * 10 ** -rng.uniform(0, 4) * rng.choice([1, -1]))
         for _ in range(some_n(rng))]
    return BOX100, S


def g_vrows(rng):
    """staggered rows: equal y within a row, repeated x between rows"""
    S = []
    a, b = rng.randint(2, 5), rng.randint(2, 5)
    for i in range(a):
        for j in range(b):
            S.append((10 + 12 * j + (rng.choice([0, 6]) if i % 2 else 0), 90 - 11 * i))
    return BOX100, S


def g_boxint(rng):
    """integer sites in general integer boxes with negative and mixed signs"""
    l, b = rng.randint(-40, 10), rng.randint(-40, 10)
    r, t = l + rng.randint(8, 60), b + rng.randint(8, 60)
    return box(l, b, r, t), [(rng.randint(l, r), rng.randint(b, t)) for _ in range(some_n(rng))]


def g_nearlevel(rng):
    """pairs of sites that are level but for a tiny difference"""
    base = rng.choice([0, 0, -50, 1000])
    P = box(base, base, base + 100, base + 100)
    S = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        x, y = Decimal(base + rng.randint(1, 90)), Decimal(base + rng.randint(1, 99))
        e = rng.choice([1, -1]) * rng.randint(1, 9) * Decimal(10) ** -rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 18])
        S += [(x, y), (x + rng.randint(1, 9), y + e)]
        if rng.random() < .3:
            S.append((x - rng.randint(1, 9), y - e))
    return P, S


def g_floatrows(rng):
    """rows whose coordinates are level but for float noise"""
    h, w = rng.uniform(.01, .4), rng.uniform(.01, .4)
    S = []
    y = rng.random()
    for _ in range(rng.randint(1, 4)):
        z = y
        for k in range(rng.randint(2, 7)):
            S.append((w * k + rng.choice([0, .1 * w]), z + h - h))
            z = (z * 3 - z) / 2 if rng.random() < .5 else math.sin(math.asin(min(z, 1)))
        y += h
    m = max(max(abs(x) for x, _ in S), max(abs(b) for _, b in S)) + .5
    return box(-m, -m, m, m), S


def g_floatline(rng):
    """collinear but for float noise"""
    r = rng.choice([1, .5, 3, 10, 50, 1e-3, 1e4])
    off = rng.choice([0, 0, 1, r, 100 * r])
    m = rng.choice([2, 3, 4, 5, 6, 8, 12])
    sl = rng.choice([rng.uniform(-1, 1), .1, .3, -.7, 1 / 3., 1e-5])
    if rng.random() < .5:
        S = [(off + r * (k / m), off + sl * r * (k / m)) for k in range(m)]
    else:
        S = [(off + r * k * .1 / m, off + .5 * r + sl * (r * k * .1 / m)) for k in range(m)]
    if rng.random() < .3:
        S += uniform_in(rng, box(off - 2 * r, off - 2 * r, off + 2 * r, off + 2 * r), rng.randint(1, 3))
    if rng.random() < .5:
        S = [(y, x) for x, y in S]
    return box(off - 2 * r, off - 2 * r, off + 2 * r, off + 2 * r), S


def g_floatcircle(rng):
    """regular polygons in floats, also with their centre and a second ring"""
    m = rng.choice([2, 3, 4, 5, 6, 8, 12, 16])
    r = rng.choice([1, 1, .5, 3, 10, 50, 1e-3, 1e4])
    off = rng.choice([0, 0, 0, 1, r])
    ph = rng.choice([0, 0, math.pi / 2, math.pi / m, rng.random()])
    S = [(off + r * math.cos(ph + 2 * math.pi * k / m), off + r * math.sin(ph + 2 * math.pi * k / m)) for k in range(m)]
    if rng.random() < .5:
        S.append((off, off))
    if rng.random() < .3:
        S += [(off + r * 1.3 * math.cos(ph + 2 * math.pi * k / m), off + r * 1.3 * math.sin(ph + 2 * math.pi * k / m))
              for k in range(m)]
    if rng.random() < .5:
        return box(off - 2.1 * r, off - 2 * r, off + 2.2 * r, off + 2.05 * r), S
    return regular(rng, rng.choice([3, 7, 11]), 3 * r, off, off, .1), S


def g_rotgrid(rng):
    """a grid turned by some angle, in floats"""
    t = rng.choice([rng.uniform(0, 6.3), math.pi / 4, math.pi / 6, 1e-9, 1e-6, 1e-3])
    n, m, d = rng.randint(2, 5), rng.randint(1, 5), rng.uniform(1, 9)
    S = [(50 + d * (math.cos(t) * i - math.sin(t) * j), 50 + d * (math.sin(t) * i + math.cos(t) * j))
         for i in range(n) for j in range(m)]
    return box(-.3, -.7, 100.2, 100.9), S


KINDS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('g_')}
ALL = sorted(KINDS)


def rescale(rng, poly, sites):
    """Another unit of length, exactly: degeneracies stay what they are."""
    k = F(rng.choice([F(2) ** -30, F(2) ** -20, F(2) ** -13, F(10) ** -3, F(10) ** -5, F(10) ** -8, F(2) ** 10, F(2) ** 20, F(10) ** 7]))

    def num(v):
        f = fr(v) * k
        d = f.denominator
        t = Decimal(f.numerator) / Decimal(d)
        if F(t) != f:
            return None
        if fr(float(f)) == f:
            return float(f)
        return t
    out = [[(num(x), num(y)) for x, y in P] for P in (poly, sites)]
    if any(None in p for P in out for p in P):
        return poly, sites
    return out


def g_shortside(rng):
    """polygons with corners cut off by short sides, and corners that nearly coincide or are nearly straight"""
    base = rng.choice([BOX100, [(0, 0), (100, 0), (0, 100)], box(-60, -20, 30, 10), random_convex(rng)])
    e = 10 ** -rng.uniform(0, 5)
    P = []
    for i in range(len(base)):
        (a, b), (c, d), (g, h) = base[i - 1], base[i], base[(i + 1) % len(base)]
        if rng.random() < .6:
            u, w = rng.uniform(.3, 1) * e / max(1, math.hypot(a - c, b - d)), rng.uniform(.3, 1) * e / max(1, math.hypot(g - c, h - d))
            P += [(c + u * (a - c), d + u * (b - d)), (c + w * (g - c), d + w * (h - d))]
        else:
            P.append((c, d))
    H = hull(P)
    return H, uniform_in(rng, H, some_n(rng))


def g_grazing(rng):
    """pairs of sites whose bisector leaves through a side at a tiny angle"""
    P = rng.choice([BOX100, box(-60, -20, 30, 10), box(0, 0, 3000, 2), box(-1, -50, 1, 4000), random_convex(rng), random_convex(rng)])
    if rng.random() < .2:
        P = regular(rng, rng.choice([3, 5, 8]))
    H = hull(P)
    S = uniform_in(rng, P, rng.choice([0, 0, 1, 2, 5]))
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.randrange(len(H))
        (a, b), (c, d) = H[k], H[(k + 1) % len(H)]
        if rng.random() < .5:
            a, b, c, d = c, d, a, b
        L = math.hypot(c - a, d - b)
        ux, uy = (c - a) / L, (d - b) / L
        nx, ny = -uy, ux
        mx, my = sum(p[0] for p in H) / len(H), sum(p[1] for p in H) / len(H)
        if (mx - a) * nx + (my - b) * ny < 0:
            nx, ny = uy, -ux
        t = 10 ** -rng.uniform(1, 5)
        x, s, h = rng.uniform(.02, .6) * L, rng.uniform(.05, .35) * L, rng.uniform(.05, .9)
        p = (a + (x + s) * ux + h * s * t * nx, b + (x + s) * uy + h * s * t * ny)
        # mirrored in the line through the point x of the side, at the angle t to it
        e = (math.cos(t) * ux + math.sin(t) * nx, math.cos(t) * uy + math.sin(t) * ny)
        w = (p[0] - a - x * ux, p[1] - b - x * uy)
        f = w[0] * e[0] + w[1] * e[1]
        S += [p, (p[0] + 2 * (f * e[0] - w[0]), p[1] + 2 * (f * e[1] - w[1]))]
    return H, S


def g_farflat(rng):
    """rows of sites that are nearly on one line, far from the origin or not, so that vertices are very far away"""
    off = rng.choice([0, 100, 10 ** 4, 10 ** 6, 10 ** 7])
    ox, oy = (rng.choice([-1, 0, 1, 1]) * off for _ in range(2))
    size = rng.choice([10, 10, 100, 1])
    P = box(ox, oy, ox + size, oy + size)
    if rng.random() < .3:
        P = hull([(ox + x / 100 * size, oy + y / 100 * size) for x, y in random_convex(rng)])
    dx, dy = rng.choice([(1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (1, 3), (rng.uniform(-1, 1), rng.uniform(-1, 1))])
    m = max(abs(dx), abs(dy))
    S = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        e = size * 10 ** -rng.uniform(3, 7)
        cx, cy = (size * rng.uniform(.4, .6) for _ in range(2))
        n = rng.choice([3, 3, 4, 5, 8])
        for k in range(n):
            t = (k + rng.choice([0, 0, .25])) / n * .8 - .4
            u = rng.choice([0, 0, rng.uniform(-e, e)])
            S.append((ox + cx + t * size * dx / m - u * dy, oy + cy + t * size * dy / m + u * dx))
    return P, S


def g_floatrow(rng):
    """sites on a line, rounded to floats: circles of a million times a million times the size of the diagram and more"""
    n = rng.choice([5, 6, 8, 10, 11])
    m, c = rng.choice([.02, .1, .3, -.7, .81, rng.uniform(-.9, .9)]), rng.choice([.02, .05, .5])
    S = []
    for k in range(1, n):
        t = k / n
        y = c + m * t if m > 0 else 1 - c + m * t
        if 0 < y < 1:
            S.append((t, y))
    if rng.random() < .3:
        S = [(y, x) for x, y in S]
    if rng.random() < .4:
        S.append((rng.uniform(.1, .9), rng.uniform(.1, .9)))
    rng.shuffle(S)
    return box(0, 0, 1, 1), S


def g_decrows(rng):
    """Decimals in rows and columns that are level or upright but for less than floats resolve"""
    P = rng.choice([BOX100, box(-50, -50, 50, 51), [(-3, 1), (104, 2), (50, 90)]])
    ox = -50 if P[0][0] == -50 else 0
    e = Decimal(10) ** -rng.randint(14, 20)
    S = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        upright, base = rng.random() < .4, Decimal(rng.randint(10, 60) + ox)
        for k in sorted(rng.sample(range(1, 10), rng.randint(2, 5))):
            a, b = Decimal(ox + 10 * k + rng.choice([0, 0, 0, 3])), base + rng.randint(-2, 2) * e
            p = (b, a) if upright else (a, b)
            if all(max(abs(p[0] - q[0]), abs(p[1] - q[1])) > Decimal('.5') for q in S):
                S.append(p)
    for _ in range(rng.choice([0, 1, 2, 4])):
        p = (Decimal(ox + rng.randint(1, 99)), Decimal(ox + rng.randint(1, 99)))
        if all(max(abs(p[0] - q[0]), abs(p[1] - q[1])) > Decimal('.5') for q in S):
            S.append(p)
    return P, S


def g_thousand(rng):
    """more than a thousand sites (not among ALL)"""
    n = rng.randint(1030, 1250)
    P = rng.choice([BOX100, random_convex(rng), regular(rng, 30)])
    how = rng.choice(['uniform', 'uniform', 'rows', 'jitter', 'clusters'])
    if how == 'uniform':
        return P, uniform_in(rng, P, n)
    if how == 'rows':
        ys = [rng.uniform(2, 98) for _ in range(rng.randint(15, 60))]
        return BOX100, [(rng.uniform(1, 99), rng.choice(ys)) for _ in range(n)]
    if how == 'jitter':
        return BOX100, [((i + .5 + rng.uniform(-.3, .3)) * 100 / 34, (j + .5 + rng.uniform(-.3, .3)) * 100 / 34) for i in range(34) for j in range(34)]
    C = [(rng.uniform(20, 80), rng.uniform(20, 80), rng.uniform(1, 15)) for _ in range(4)]
    S = []
    while len(S) < n:
        a, b, r = rng.choice(C)
        S.append((a + rng.uniform(-r, r), b + rng.uniform(-r, r)))
    return BOX100, S


KINDS['shortside'] = g_shortside
KINDS['grazing'] = g_grazing
KINDS['farflat'] = g_farflat
KINDS['decrows'] = g_decrows
KINDS['floatrow'] = g_floatrow
ALL = sorted(KINDS)
KINDS['thousand'] = g_thousand


def make(kind, seed):
    """The case, with sites distinct as exact numbers and inside or on the polygon."""
    rng = random.Random('%s/%s' % (kind, seed))
    poly, sites = KINDS[kind](rng)
    if rng.random() < .15:
        poly, sites = rescale(rng, poly, sites)
    H = hull([(fr(x), fr(y)) for x, y in poly])
    seen, out = set(), []
    for x, y in sites:
        p = (fr(x), fr(y))
        if p in seen or not in_convex(H, p):
            continue
        seen.add(p)
        out.append((x, y))
    if not out:
        c = H[0]
        out = [((poly[0][0] + poly[1][0]) / 2, (poly[0][1] + poly[1][1]) / 2)]
        if not in_convex(H, (fr(out[0][0]), fr(out[0][1]))):
            out = [poly[0]]
    poly = list(poly)
    rng.shuffle(out)
    k = rng.randrange(len(poly))
    poly = poly[k:] + poly[:k]
    if rng.random() < .5:
        poly.reverse()
    return poly, out
