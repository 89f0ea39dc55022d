"""C22: the geometric primitives satisfy their defining equations."""
import decimal
import random
from lib.diagram import *

RULE = ('Every primitive is called in units from 1e-12 to 1e5 (breakpoints and circles: 1e-170 to 1e170) with random, small-integer, level, upright, far away and nearly degenerate arguments; the '
        'answers are put into the defining equations in exact or 200-digit arithmetic. Distinct: by primitive and by the '
        'signs and coincidences of the arguments.')
ASSUMPTIONS = ['a ray that starts on a segment, runs along it, or passes its end within 1e-6 of its length without meeting it is not judged',
               'arguments at offsets above 1e5 or that almost coincide are computed with 60 digits, as diagrams are']
MUST_SEE = ['breakpoints', 'breakpoints of level sites', 'breakpoints of level sites in the wrong order',
            'breakpoints with a site on the sweep line', 'breakpoints with both sites on the sweep line', 'breakpoints of nearly level sites',
            'breakpoints just below a site', 'tiny arguments', 'extreme units', 'breakpoints that got other sites', 'arcs just above the sweep line', 'circles', 'collinear triples', 'plotted arcs', 'arcs without height', 'ray hits', 'ray misses', 'rays through an end',
            'rays parallel to a segment', 'rays at a small angle', 'distances', 'norms', 'angles', 'angles of close coordinates', 'clockwise', 'counter-clockwise']


def jobs(seed, tier):
    n = 60 if tier == 'quick' else 2000
    return [{'what': w, 'seed': '%s.%s' % (seed, k)} for w in ('breakpoint', 'circle', 'arc', 'ray', 'misc') for k in range(n)]


def run(job, mon):
    rng = random.Random(job['what'] + job['seed'])
    for _ in range(150):
        # the unit of length
        rng.unit = Decimal(10) ** rng.choice([0, 0, 0, 0, 0, -3, -6, -9, -12, 5])
        if job['what'] in ('breakpoint', 'circle') and rng.random() < .1:
            rng.unit = Decimal(10) ** rng.choice([-170, -40, 40, 170])        # beyond what floats can multiply
            mon.see('extreme units')
        mon.see('tiny arguments', rng.unit < Decimal('1e-5'))
        {'breakpoint': breakpoint_, 'circle': circle, 'arc': arc, 'ray': ray, 'misc': misc}[job['what']](rng, mon)
        if mon.violations:
            return


def number(rng, style):
    return plain(rng, style) * rng.unit


def plain(rng, style):
    if style == 'int':
        return Decimal(rng.randint(-8, 8))
    if style == 'dec':
        return Decimal(rng.randint(-10 ** 6, 10 ** 6)) / 1000
    if style == 'float':
        return Decimal(repr(rng.uniform(-50, 50)))
    if style == 'tiny':
        return Decimal(repr(rng.uniform(-1e-3, 1e-3)))
    return Decimal(rng.randint(-10 ** 9, 10 ** 9)) / 100      # far


STYLES = ['int', 'int', 'dec', 'float', 'tiny', 'far']


def context(style):
    """Diagrams are computed with 60 digits."""
    c = decimal.getcontext().copy()
    if style in ('far', 'fine'):
        c.prec = 60
    return decimal.localcontext(c)


def exactly(p):
    return F(p.xd), F(p.yd)


def sq(x):
    return x * x


def breakpoint_(rng, mon):
    from foronoi.nodes import Breakpoint
    from foronoi.graph import Point
    style = rng.choice(STYLES)
    a, b, c, d = (number(rng, style) for _ in range(4))
    r = rng.random()
    if r < .2:
        d = b
    elif r < .3:
        c = a
    elif r < .45:
        style, d = 'fine', b + Decimal(rng.choice([1, -1])) * Decimal(10) ** -rng.randint(6, 14) * rng.unit
    if (a, b) == (c, d):
        return
    low = min(b, d)
    drop = abs(number(rng, style if style != 'fine' else 'dec'))
    if rng.random() < .25:
        # just below a site
        style, drop = 'fine', Decimal(rng.randint(1, 99)) * Decimal(10) ** -rng.randint(3, 12) * rng.unit
        mon.see('breakpoints just below a site')
    l = low if rng.random() < .2 else low - (drop or rng.unit)
    i, j = Point(a, b), Point(c, d)
    max_y = rng.choice([None, max(b, d) + 7 * rng.unit])
    with context(style):
        if rng.random() < .3:
            # breakpoints get other sites during a construction, while the sweep line does not move
            bp = Breakpoint((Point(a + c + 1, b + rng.unit), j) if rng.random() < .5 else (i, Point(a - 3 * rng.unit, d + 2 * rng.unit)))
            bp.get_intersection(l, max_y=max_y)
            bp.breakpoint = (i, j)
            mon.see('breakpoints that got other sites')
        else:
            bp = Breakpoint((i, j))
        q = bp.get_intersection(l, max_y=max_y) if max_y is not None or rng.random() < .5 else bp.get_intersection(l)
    args = 'breakpoint of (%s, %s) and (%s, %s) at %s' % (a, b, c, d, l)
    mon.see('breakpoints')
    mon.shape('breakpoint', (a > c) - (a < c), (b > d) - (b < d), l == low, style)
    mon.check((i.xd, i.yd, j.xd, j.yd) == (a, b, c, d), 'the %s changed its sites', args)
    mon.check(bp.does_intersect() == (not (b == d and c < a)), '%s: does_intersect is wrong', args)
    size = max(abs(float(v)) for v in (a, b, c, d, l))
    A, B, C, D, L = map(F, (a, b, c, d, l))
    if b == d:
        mon.see('breakpoints of level sites')
        mon.check(abs(F(q.xd) - (A + C) / 2) <= F(size) * F(1, 10 ** 20), 'the %s has x=%s instead of the middle', args, q.xd)
        if c < a:
            mon.see('breakpoints of level sites in the wrong order')
            mon.check(q.yd == (max_y if max_y is not None else Decimal('inf')), 'the %s (which are in the wrong order) has y=%s', args, q.yd)
            return
        if l == b:
            mon.see('breakpoints with both sites on the sweep line')
            mon.check(q.yd == Decimal('inf') or (max_y is not None and q.yd == max_y), 'the %s has y=%s', args, q.yd)
            return
    if not q.yd.is_finite() or not q.xd.is_finite():
        mon.bad('the %s is not finite: (%s, %s)' % (args, q.xd, q.yd))
        return
    x, y = exactly(q)
    if l == low:
        mon.see('breakpoints with a site on the sweep line')
        hx, hy, kx, ky = (A, B, C, D) if l == b else (C, D, A, B)
        mon.check(x == hx, 'the %s has x=%s instead of that of the site on the sweep line', args, q.xd)
        want = (sq(hx - kx) + ky * ky - L * L) / (2 * (ky - L))
        mon.check(abs(y - want) <= (abs(want) + F(size)) * F(1, 10 ** 9), 'the %s has y=%s instead of %s', args, q.yd, float(want))
        return
    if b != d and abs(b - d) < Decimal('1e-5'):
        mon.see('breakpoints of nearly level sites')
    # reference: the root of the difference of the parabolas at which it goes from negative to positive
    u, v = 2 * (B - L), 2 * (D - L)
    if b == d:
        rx = (A + C) / 2
    else:
        with decimal.localcontext() as ctx:
            ctx.prec = 200

            def dec(f):
                return Decimal(f.numerator) / Decimal(f.denominator)
            # (x-A)^2/u + (B+L)/2 = (x-C)^2/v + (D+L)/2
            qa, qb, qc = v - u, -2 * (A * v - C * u), A * A * v - C * C * u + u * v * (B - D) / 2
            disc = dec(qb * qb - 4 * qa * qc)
            s = disc.sqrt()
            roots = [F((-dec(qb) + t) / dec(2 * qa)) for t in (s, -s)]
            # derivative of y_i - y_j has to be positive: y_i is the lower one left of the breakpoint
            rx = max(roots, key=lambda z: 2 * (z - A) / u - 2 * (z - C) / v)
    span = abs(rx - A) + abs(rx - C) + F(size) + F(1, 10 ** 6) * F(rng.unit)
    tol = span * F(1, 10 ** 9)
    mon.check(abs(x - rx) <= tol, 'the %s has x=%s instead of %s', args, q.xd, float(rx))
    yi, yj = (sq(x - A)) / u + (B + L) / 2, (sq(x - C)) / v + (D + L) / 2
    for name, w in (('left', yi), ('right', yj)):
        mon.check(abs(y - w) <= tol * (1 + (abs(x - A) + abs(x - C)) / min(u, v)) + abs(w) * F(1, 10 ** 9),
                  'the %s, (%s, %s), is not on the parabola of its %s site (%s)', args, q.xd, q.yd, name, float(w))


def three(rng, style):
    pts = [(number(rng, style), number(rng, style)) for _ in range(3)]
    r = rng.random()
    if r < .25:                        # exactly collinear
        (x, y), (dx, dy) = pts[0], (number(rng, 'int'), number(rng, 'int'))
        m, n = rng.sample([-3, -2, -1, 1, 2, 3, 5, 17], 2)
        pts = [(x, y), (x + m * dx, y + m * dy), (x + n * dx, y + n * dy)]
    elif r < .35:
        pts[1] = (pts[0][0], pts[1][1])
    elif r < .45:
        pts[1] = (pts[1][0], pts[0][1])
    elif r < .6:                       # almost collinear
        style = 'fine'
        (x, y), (dx, dy) = pts[0], (number(rng, 'int'), number(rng, 'int'))
        e = Decimal(10) ** -rng.randint(5, 12) * rng.unit
        pts = [(x, y), (x + dx, y + dy), (x + 2 * dx + rng.choice([-e, 0, e]), y + 2 * dy + rng.choice([-e, e]))]
    rng.shuffle(pts)
    return pts, style


def circle(rng, mon):
    from foronoi.events import CircleEvent
    from foronoi.graph import Point
    pts, style = three(rng, rng.choice(STYLES))
    if len(set(pts)) < 3:
        return
    P = [Point(*p) for p in pts]
    with context(style):
        r = CircleEvent.create_circle(*P)
    args = 'the circle of %s' % ', '.join('(%s, %s)' % p for p in pts)
    E = [(F(x), F(y)) for x, y in pts]
    o = (E[1][0] - E[0][0]) * (E[2][1] - E[0][1]) - (E[1][1] - E[0][1]) * (E[2][0] - E[0][0])
    mon.shape('circle', (o > 0) - (o < 0), style)
    if o == 0:
        mon.see('collinear triples')
        mon.check(not r, '%s, which are collinear, is %s', args, r)
        return
    mon.see('circles')
    if not mon.check(bool(r), '%s does not exist', args):
        return
    x, y, rad = (F(t) for t in r)
    if not mon.check(rad > 0, '%s has the radius %s', args, rad):
        return
    # the exact centre
    (ax, ay), (bx, by), (cx, cy) = E
    g = 2 * o
    s1, s2 = sq(bx - ax) + sq(by - ay), sq(cx - ax) + sq(cy - ay)
    ex, ey = ax + ((cy - ay) * s1 - (by - ay) * s2) / g, ay + ((bx - ax) * s2 - (cx - ax) * s1) / g
    tol = (rad + max(abs(t) for t in (ax, ay, bx, by, cx, cy))) * F(1, 10 ** 10)
    mon.check(abs(x - ex) <= tol and abs(y - ey) <= tol, '%s has its centre at (%s, %s) instead of (%s, %s)', args,
              float(x), float(y), float(ex), float(ey))
    for p in E:
        # |d^2 - r^2| = |d - r| |d + r|
        mon.check(abs(sq(p[0] - ex) + sq(p[1] - ey) - sq(rad)) <= 3 * rad * tol, '%s has the radius %s and does not pass through (%s, %s)',
                  args, float(rad), float(p[0]), float(p[1]))


def arc(rng, mon):
    from foronoi.nodes import Arc
    from foronoi.graph import Point
    style = rng.choice(['int', 'dec', 'float', 'tiny'])
    a, b = number(rng, style), number(rng, style)
    l = b if rng.random() < .1 else b - (abs(number(rng, style)) or rng.unit)
    if l != b and rng.random() < .4:
        l = b - (b - l) * Decimal(10) ** -rng.randint(3, 10)
        mon.see('arcs just above the sweep line')
    xs = [float(number(rng, style)) for _ in range(5)]
    how = rng.choice(['array', 'scalar'])
    line = l if rng.random() < .5 else float(l)
    p = Point(a, b)
    arg = np.array(xs) if how == 'array' else xs[0]
    got = Arc(p).get_plot(arg, line)
    if float(b) == float(l):
        mon.see('arcs without height')
        mon.check(got is None, 'the arc of a site on the sweep line is plotted as %s', got)
        return
    mon.see('plotted arcs')
    mon.shape('arc', style, how)
    if how == 'array':
        if not mon.check(np.shape(got) == (5,), 'an arc has the shape %s for 5 positions', np.shape(got)):
            return
    mon.check(how != 'array' or list(arg) == xs, 'get_plot changed the positions')
    m = max(abs(float(t)) for t in (a, b, l, *xs))
    for x, y in zip(xs, got if how == 'array' else [got]):
        u = 2 * (F(b) - F(l))
        want = sq(F(x) - F(a)) / u + (F(b) + F(l)) / 2
        tol = 1e-13 * m * m / float(u) + 1e-12 * abs(float(want)) + 1e-14 * m
        mon.check(abs(float(y) - float(want)) <= tol * (1 + m / float(u)), 'the arc of (%s, %s) with the sweep line at %s is at %s instead of %s for x=%s',
                  a, b, l, y, float(want), x)


def ray(rng, mon):
    from foronoi.graph import Algebra, Coordinate
    style = rng.choice(['int', 'int', 'dec', 'float'])
    o, e, p, q = ((number(rng, style), number(rng, style)) for _ in range(4))
    if rng.random() < .25:             # aim at an end of the segment
        t = rng.choice([1, 2, 3])
        o = (rng.choice([p, q]))
        k = (number(rng, 'int'), number(rng, 'int'))
        o, e = (o[0] + t * k[0], o[1] + t * k[1]), (o[0] + (t - 1) * k[0], o[1] + (t - 1) * k[1])
    elif rng.random() < .15:           # parallel
        e = (o[0] + q[0] - p[0], o[1] + q[1] - p[1])
    elif rng.random() < .2:            # through the segment at a small angle
        t, x, k = Decimal(10) ** -rng.randint(1, 7) * rng.choice([-1, 1]), Decimal(rng.randint(-3, 13)) / 10, rng.choice([-1, 1, 2])
        d = (q[0] - p[0], q[1] - p[1])
        x = (p[0] + x * d[0], p[1] + x * d[1])
        d = (k * (d[0] - t * d[1]), k * (d[1] + t * d[0]))
        o, e = (x[0] - d[0], x[1] - d[1]), (x[0] + d[0], x[1] + d[1])
    if o == e or p == q:
        return
    args = 'ray (%s, %s)-(%s, %s), segment (%s, %s)-(%s, %s)' % (*o, *e, *p, *q)
    O, E, P, Q = ([F(float(t)) for t in z] for z in (o, e, p, q))
    d = (E[0] - O[0], E[1] - O[1])
    s = (Q[0] - P[0], Q[1] - P[1])
    den = d[0] * s[1] - d[1] * s[0]
    size = max(abs(float(t)) for t in (*o, *e, *p, *q)) or 1
    ld, ls = math.hypot(*map(float, d)), math.hypot(*map(float, s))
    as_coordinates = rng.random() < .5
    if as_coordinates:
        r = Algebra.get_intersection(*(Coordinate(*z) for z in (o, e, p, q)))
        got = None if r is None else (float(r.xd), float(r.yd))
    else:
        conv = rng.choice([list, tuple, np.array]) if style != 'dec' else list
        r = Algebra.line_ray_intersection_point(*(conv([float(t) for t in z]) for z in (o, e, p, q)))
        if not mon.check(len(r) in (0, 1), '%s: %d intersections', args, len(r)):
            return
        got = (float(r[0][0]), float(r[0][1])) if len(r) else None
    w = (P[0] - O[0], P[1] - O[1])
    if den == 0:
        along = d[0] * w[1] == d[1] * w[0]
        if not along:
            mon.see('rays parallel to a segment')
            mon.check(got is None, '%s: parallel, but an intersection at %s', args, got)
        return
    sine = abs(float(den)) / (ld * ls)
    if sine < 1e-8:
        return
    t1 = (w[0] * s[1] - w[1] * s[0]) / den            # along the ray
    t2 = (w[0] * d[1] - w[1] * d[0]) / den            # along the segment
    if abs(float(t1)) * ld < 1e-6 * size:
        return
    at_end = t2 in (0, 1)
    if not at_end and min(abs(t2), abs(t2 - 1)) < F(1, 10 ** 6) + F(1e-14 * size / (ls * sine)):
        return
    if at_end and sine < 1e-5:
        return
    mon.see('rays at a small angle', sine < 1e-3)
    want = t1 > 0 and 0 <= t2 <= 1
    mon.shape('ray', want, at_end, t1 > 1, as_coordinates)
    if want:
        mon.see('ray hits')
        if at_end:
            mon.see('rays through an end')
        if not mon.check(got is not None, '%s: the intersection is not found', args):
            return
        x, y = float(O[0] + t1 * d[0]), float(O[1] + t1 * d[1])
        mon.check(dist(got, (x, y)) <= 1e-10 * (size + abs(float(t1)) * ld) / sine, '%s: the intersection is at %s instead of %s', args, got, (x, y))
    else:
        mon.see('ray misses')
        mon.check(got is None, '%s: they do not meet, but an intersection is found at %s', args, got)


def misc(rng, mon):
    from foronoi.graph import Algebra, Coordinate
    style = rng.choice(['int', 'dec', 'float'])
    a, b = [(number(rng, style), number(rng, style)) for _ in range(2)]
    A, B = Coordinate(*a), Coordinate(*b)
    d2 = sq(F(a[0]) - F(b[0])) + sq(F(a[1]) - F(b[1]))
    want = math.sqrt(d2)
    mon.see('distances')
    for got in (Algebra.distance(A, B), Algebra.distance(B, A)):
        mon.check(abs(float(got) - want) <= 1e-12 * (want + 1e-9 * float(rng.unit)), 'the distance of %s and %s is %s', a, b, got)
    v = [float(t) for t in a]
    m = math.hypot(*v)
    mon.see('norms')
    arg = rng.choice([list, tuple, np.array])(v)
    mon.check(abs(float(Algebra.magnitude(arg)) - m) <= 1e-12 * (m + 1e-300), 'the magnitude of %s is wrong', v)
    n = Algebra.norm(arg)
    want = (v[0] / m, v[1] / m) if m else (0, 0)
    mon.check(len(n) == 2 and abs(float(n[0]) - want[0]) < 1e-12 and abs(float(n[1]) - want[1]) < 1e-12, 'the norm of %s is %s', v, n)
    mon.check(list(arg) == v, 'norm changed its argument')
    if a != b:
        mon.see('angles')
        g = float(Algebra.calculate_angle(A, B))
        want = math.degrees(math.atan2(float(F(a[1]) - F(b[1])), float(F(a[0]) - F(b[0])))) % 360
        mon.check(0 <= g <= 360 and min(abs(g - want), 360 - abs(g - want)) < 1e-9, 'the angle of %s around %s is %s instead of %s', a, b, g, want)
        # the same, with more digits than a float has
        a, b = [tuple(t / rng.unit for t in p) for p in (a, b)]
        mon.see('angles of close coordinates')
        o = [Decimal(rng.choice([-1, 1])) * 10 ** rng.randint(8, 13) + rng.randint(0, 1000) for _ in range(2)]
        e = Decimal(10) ** -rng.randint(2, 5)
        A2, B2 = (Coordinate(o[0] + e * p[0].quantize(Decimal('1e-5')), o[1] + e * p[1].quantize(Decimal('1e-5'))) for p in (a, b))
        if (A2.xd, A2.yd) != (B2.xd, B2.yd):
            g = float(Algebra.calculate_angle(A2, B2))
            want = math.degrees(math.atan2(float(F(A2.yd) - F(B2.yd)), float(F(A2.xd) - F(B2.xd)))) % 360
            mon.check(0 <= g <= 360 and min(abs(g - want), 360 - abs(g - want)) < 1e-9, 'the angle of (%s, %s) around (%s, %s) is %s instead of %s',
                      A2.xd, A2.yd, B2.xd, B2.yd, g, want)
            want = math.sqrt((F(A2.xd) - F(B2.xd)) ** 2 + (F(A2.yd) - F(B2.yd)) ** 2)
            got = Algebra.distance(A2, B2)
            mon.check(abs(float(got) - want) <= 1e-12 * want, 'the distance of (%s, %s) and (%s, %s) is %s instead of %s', A2.xd, A2.yd, B2.xd, B2.yd, got, want)
    pts, _ = three(rng, style)
    E = [(F(x), F(y)) for x, y in pts]
    o = cross3(E)
    if o == 0:
        return
    # the centre of their circle
    (ax, ay), (bx, by), (cx, cy) = E
    s1, s2 = sq(bx - ax) + sq(by - ay), sq(cx - ax) + sq(cy - ay)
    ex, ey = ax + ((cy - ay) * s1 - (by - ay) * s2) / (2 * o), ay + ((bx - ax) * s2 - (cx - ax) * s1) / (2 * o)
    C = [Coordinate(*p) for p in pts]
    got = Algebra.check_clockwise(*C, Coordinate(Decimal(ex.numerator) / Decimal(ex.denominator), Decimal(ey.numerator) / Decimal(ey.denominator)))
    mon.see('clockwise' if o < 0 else 'counter-clockwise')
    mon.shape('clockwise', o < 0, style)
    mon.check(bool(got) == (o < 0), '%s are %sclockwise, but check_clockwise says %s', ', '.join('(%s, %s)' % p for p in pts),
              'counter-' if o > 0 else '', got)


def cross3(E):
    (ax, ay), (bx, by), (cx, cy) = E
    return (bx - ax) * (cy - ay) - (by - ay) * (cx - ax)
