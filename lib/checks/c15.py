"""C15: the diagram moves, turns and scales along with its input."""
import random
from decimal import Decimal, getcontext
from fractions import Fraction as F
from lib.diagram import *
from lib.gen import PYTH, exact_decimal, dec

RULE = ('Layout generators x similarity transformations that are exact in decimals (quarter turns, mirror images, translations, '
        'Pythagorean rotations, scalings by decimal factors, and their compositions); the cells of the transformed input are '
        'compared with the transformed cells. Distinct: by shape and kind of transformation.')
ASSUMPTIONS = ['sites are distinct and inside or on a convex polygon', 'no Voronoi vertex on the border of the polygon',
               'both inputs are conditioned well enough for floats']
MUST_SEE = ['cells compared', 'quarter turn', 'mirror', 'translation', 'scaling', 'rotation']


def jobs(seed, tier):
    return fixed_jobs() + gen_jobs(seed, 8 if tier == 'quick' else 160) + thousand_jobs(seed, tier)


def run(job, mon):
    c = judge(job, mon)
    if not c:
        return
    poly, sites, o = c
    rng = random.Random('sim' + str(job.get('seed')) + str(job.get('gen', job.get('name'))))
    base = build(poly, sites)
    cells = [[(float(x), float(y)) for x, y in P] for P in cell_points(base)]
    for _ in range(2):
        kinds = rng.sample(['quarter turn', 'mirror', 'translation', 'scaling', 'rotation'], rng.choice([1, 1, 2]))
        a, b, c_, d, e, g = F(1), F(0), F(0), F(1), F(0), F(0)     # x' = a x + b y + e, y' = c x + d y + g
        for k in kinds:
            if k == 'quarter turn':
                m = rng.choice([(0, -1, 1, 0), (-1, 0, 0, -1), (0, 1, -1, 0)])
            elif k == 'mirror':
                m = rng.choice([(-1, 0, 0, 1), (1, 0, 0, -1), (0, 1, 1, 0)])
            elif k == 'rotation':
                p, q, h = rng.choice([(3, 4, 5), (4, 3, 5), (7, 24, 25), (24, 7, 25), (-3, 4, 5), (44, 117, 125), (336, 527, 625)])
                m = (F(p, h), -F(q, h), F(q, h), F(p, h))
            elif k == 'scaling':
                s = rng.choice([F(1, 1000), F(1, 8), F(3), F(1000), F(7, 4), F(100000)])
                m = (s, 0, 0, s)
            else:
                m = (1, 0, 0, 1)
                t = F(rng.choice([1, 10, 100])) * o_scale(o)
                e, g = e + t * rng.randint(-3, 3), g + t * rng.randint(-3, 3) + F(rng.randint(0, 999), 1000)
            a, b, c_, d, e, g = (m[0] * a + m[1] * c_, m[0] * b + m[1] * d, m[2] * a + m[3] * c_, m[2] * b + m[3] * d,
                                 m[0] * e + m[1] * g, m[2] * e + m[3] * g)

        def T(p):
            return (a * p[0] + b * p[1] + e, c_ * p[0] + d * p[1] + g)

        def put(p):
            x, y = T((fr(p[0]), fr(p[1])))
            if not exact_decimal(x) or not exact_decimal(y):
                raise ValueError
            ctx = getcontext()
            prec = ctx.prec
            ctx.prec = 80
            try:
                return dec(x), dec(y)
            finally:
                ctx.prec = prec
        P2, S2 = [put(p) for p in poly], [put(p) for p in sites]
        o2 = Oracle(P2, S2)
        if not o2.wellposed:
            mon.skip('the transformed layout is ill-conditioned')
            continue
        k = math.sqrt(float(a * d - b * c_)) if a * d > b * c_ else math.sqrt(float(b * c_ - a * d))
        v = build(P2, S2)
        pts = cell_points(v)
        tol = o.tol * k + o2.tol
        fa, fb, fc, fd, fe, fg = map(float, (a, b, c_, d, e, g))
        for i in range(len(sites)):
            mon.check(exy(v.sites[i]) == (fr(S2[i][0]), fr(S2[i][1])), 'site %d is stored as %s', i, coords(v.sites[i]))
            want = [(fa * x + fb * y + fe, fc * x + fd * y + fg) for x, y in cells[i]]
            m = compare_cells([(float(x), float(y)) for x, y in pts[i]], want, 2 * tol)
            if m:
                mon.bad('after %s, the cell of site %d %s' % (kinds, i, m))
            r = v.sites[i].area() / (k * k)
            mon.see('cells compared')
        if mon.violations:
            mon.bad('polygon %s, sites %s' % ([tuple(map(str, p)) for p in P2], [tuple(map(str, p)) for p in S2[:12]]))
            return
        for kd in kinds:
            mon.see(kd)
        mon.shape(tuple(kinds), signature(o))


def o_scale(o):
    """A round number of the size of the polygon."""
    return F(10) ** int(math.floor(math.log10(o.scale)))
