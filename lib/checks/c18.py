"""C18: coordinates keep exactly the numbers that they are given, of whatever type."""
import random
import struct
from fractions import Fraction
from lib.diagram import *
from lib.checks.c13 import full

RULE = ('Random and special numbers (subnormal to huge, 1 to 40 digits, signed zeros) as int, float, Decimal, numpy scalar and '
        'string in coordinates, points and vertices, by constructor and by every setter, against exact rational numbers; and the '
        'layout generators with the same numbers given in different types, compared exactly. Distinct: by type, class, way and '
        'magnitude, and by diagram shape.')
ASSUMPTIONS = ['a float denotes its shortest decimal (repr), as the package stores it',
               'subtraction of numbers whose difference has at most 28 digits']
MUST_SEE = ['numbers stored', 'numbers that compare equal', 'numbers set', 'subtractions', 'diagrams compared', 'types compared']
KINDS = ['box', 'conv', 'intgrid', 'grid', 'gridf', 'few', 'samey', 'boxint', 'mirror', 'decimal', 'boxfrac', 'tri', 'collinear',
         'edgecluster', 'nearlevel', 'floatline', 'lattice', 'onborder', 'huge', 'tiny']


def jobs(seed, tier):
    q = tier == 'quick'
    return [{'numbers': '%s.%s' % (seed, k)} for k in range(120 if q else 3000)] + gen_jobs(seed, 6 if q else 120, KINDS) + \
        fixed_jobs()


def some_number(rng):
    """(value, the exact number it denotes, name of the type)"""
    k = rng.choice(['int', 'bigint', 'float', 'bits', 'decimal', 'str', 'np.float64', 'np.float32', 'np.int64', 'np.int32', 'special',
                    'short', 'npbits'])
    if k == 'int':
        v = rng.randint(-1000, 1000)
    elif k == 'bigint':
        v = rng.randint(-10 ** rng.randint(3, 40), 10 ** rng.randint(3, 40))
    elif k == 'float':
        v = rng.uniform(-1, 1) * 10 ** rng.randint(-20, 20)
    elif k in ('bits', 'npbits'):
        while True:
            v = struct.unpack('d', struct.pack('Q', rng.getrandbits(64)))[0]
            if v == v and abs(v) != float('inf'):
                break
        if k == 'npbits':
            v = np.float64(v)
    elif k == 'short':
        v = round(rng.uniform(-100, 100), rng.randint(0, 6))
    elif k == 'decimal':
        v = Decimal(rng.randint(-10 ** rng.randint(1, 40), 10 ** rng.randint(1, 40))).scaleb(rng.randint(-45, 5))
        digits = ''.join(rng.choice('0123456789') for _ in range(rng.randint(1, 40)))
        v = Decimal('%s%s.%s' % (rng.choice(['', '-']), rng.randint(0, 999), digits))
    elif k == 'str':
        v = '%s%d.%s%s' % (rng.choice(['', '-', '+']), rng.randint(0, 10 ** rng.randint(0, 20)),
                           ''.join(rng.choice('0123456789') for _ in range(rng.randint(1, 30))),
                           rng.choice(['', '', 'e5', 'e-7', 'E3']))
    elif k == 'np.float64':
        v = np.float64(rng.uniform(-1, 1) * 10 ** rng.randint(-20, 20))
    elif k == 'np.float32':
        v = np.float32(rng.uniform(-1, 1) * 10 ** rng.randint(-5, 5))
    elif k == 'np.int64':
        v = np.int64(rng.randint(-2 ** 60, 2 ** 60))
    elif k == 'np.int32':
        v = np.int32(rng.randint(-2 ** 30, 2 ** 30))
    else:
        v = rng.choice([0, 0.0, -0.0, 1, -1, .1, .2, .3, 1 / 3, 2 ** 53 + 1, 1e22, 1e23, 5e-324, 2.2250738585072014e-308,
                        1.7976931348623157e308, 9007199254740993, 123456789.123456789, 1e16, 1e-7, 100000000000000000000])
    return v, Fraction(str(v)), k


def run(job, mon):
    if 'numbers' in job:
        return run_numbers(job, mon)
    f = api()
    c = judge(job, mon)
    if not c:
        return
    poly, sites, o = c
    rng = random.Random('types' + str(job.get('seed')) + str(job.get('gen', job.get('name'))))
    base = full(build(poly, sites))
    ints = all(fr(x).denominator == 1 and abs(fr(x)) < 2 ** 53 for p in list(poly) + list(sites) for x in p)
    floats = all(fr(float(x)) == fr(x) for p in list(poly) + list(sites) for x in p)
    forms = {'str': str, 'Decimal': lambda x: Decimal(str(x))}
    if ints:
        forms.update(int=lambda x: int(fr(x)), int64=lambda x: np.int64(int(fr(x))))
    if floats:
        forms.update(float=lambda x: float(x), float64=lambda x: np.float64(float(x)))
    names = sorted(forms)
    box = len(set(fr(p[0]) for p in poly)) == 2 and len(set(fr(p[1]) for p in poly)) == 2 and len(poly) == 4
    for name in names + ['mixed']:
        def conv(x):
            return forms[rng.choice(names) if name == 'mixed' else name](x)
        P = [(conv(x), conv(y)) for x, y in poly]
        S = [(conv(x), conv(y)) for x, y in sites]
        if name in ('int64', 'float64') and rng.random() < .5:
            S = np.array(S)
            P = np.array(P)
        if box and rng.random() < .5:
            X, Y = [p[0] for p in P], [p[1] for p in P]
            l, r = min(X, key=fr), max(X, key=fr)
            b, t = min(Y, key=fr), max(Y, key=fr)
            bounding = f.BoundingBox(l, r, b, t)
        else:
            bounding = f.Polygon(P)
        got = full(build(None, S, bounding=bounding))
        for key in base:
            if got[key] != base[key]:
                mon.bad('with the numbers given as %s, the %s are not the same: %s' % (
                    name, key, [(a, b) for a, b in zip(got[key], base[key]) if a != b][:1] or (len(got[key]), len(base[key]))))
                return
        mon.check([(F(a), F(b)) for a, b in ((q.xd, q.yd) for q in bounding.points)] and
                  set(exy(q) for q in bounding.points) == set((fr(x), fr(y)) for x, y in poly),
                  'the corners of the polygon given as %s are not kept', name)
        mon.see('types compared')
    mon.see('diagrams compared')
    mon.shape(signature(o), tuple(names))


def run_numbers(job, mon):
    from foronoi.graph.coordinate import Coordinate
    from foronoi.graph.point import Point
    from foronoi.graph.vertex import Vertex
    rng = random.Random('numbers' + job['numbers'])
    for _ in range(60):
        cls = rng.choice([Coordinate, Point, Vertex])
        (a, fa, ka), (b, fb, kb) = some_number(rng), some_number(rng)
        given = (a, b)
        way = rng.choice(['constructor', 'keyword', 'setter', 'dsetter', 'again'])
        if way == 'constructor':
            c = cls(a, b)
        elif way == 'keyword':
            c = cls(x=a, y=b)
        elif way == 'again':
            c = cls(a, b)
            # what was read can be assigned again, and the other one is left alone
            c.xd = c.xd
            c.y = c.yd
        else:
            c = cls(1, 2)
            if way == 'setter':
                c.x = a
                mon.check(Fraction(c.yd) == 2, 'assigning x of a %s changes y', cls.__name__)
                c.y = b
            else:
                c.yd = b
                mon.check(Fraction(c.xd) == 1, 'assigning yd of a %s changes x', cls.__name__)
                c.xd = a
            mon.see('numbers set', 2)
        text = '%s(%r, %r) by %s' % (cls.__name__, a, b, way)
        for got, want, k in ((c.xd, fa, ka), (c.yd, fb, kb)):
            mon.check(isinstance(got, Decimal), '%s: %r is not a Decimal', text, got)
            mon.check(Fraction(got) == want, '%s reads back as %s', text, got)
        for got, want in ((c.x, fa), (c.y, fb), (c.xy[0], fa), (c.xy[1], fb)):
            mon.check(isinstance(got, float) and got == as_float(want), '%s reads back as the float %r', text, got)
        mon.check(len(c.xy) == 2, 'xy of %s is %r', text, c.xy)
        mon.see('numbers stored', 2)
        mon.shape(cls.__name__, way, ka, kb)
        d = rng.choice([Coordinate, Point, Vertex])
        (p, fp, _), (q, fq, _) = some_number(rng), some_number(rng)
        if all(digits(u) and digits(v) and digits(u - v) for u, v in ((fa, fp), (fb, fq))):
            other = d(p, q)
            r = c - other
            mon.check(Fraction(r.xd) == fa - fp and Fraction(r.yd) == fb - fq, '%s minus %s is (%s, %s)', text, coords(other), r.xd, r.yd)
            mon.check(Fraction(c.xd) == fa and Fraction(other.xd) == fp, 'subtraction changes its operands')
            mon.see('subtractions')
        # two numbers of one float grid, which is what sites are
        u, v = round(rng.uniform(-1e6, 1e6), 8), round(rng.uniform(-1e6, 1e6), 8)
        r = cls(u, v) - d(v, u)
        w = Fraction(str(u)) - Fraction(str(v))
        mon.check(Fraction(r.xd) == w and Fraction(r.yd) == -w, '(%r, %r) minus (%r, %r) is (%s, %s)', u, v, v, u, r.xd, r.yd)
        mon.check(given[0] is a, 'given')
        # numbers that compare equal but are written differently, in any order
        f = rng.choice([rng.uniform(-1, 1) * 10 ** rng.randint(-5, 5), rng.randint(0, 3), round(rng.uniform(0, 10), 1), -0.0, 0.1])
        same = [f, np.float64(f), Decimal(f), Decimal(repr(f)), str(f), np.float32(f)]
        if f == int(f):
            same += [int(f), np.int64(int(f)), Decimal(int(f)), Decimal('%d.000' % int(f))]
        rng.shuffle(same)
        for g, h in zip(same, same[1:]):
            c = cls(g, h)
            mon.check(Fraction(c.xd) == Fraction(str(g)) and Fraction(c.yd) == Fraction(str(h)), '%s(%r, %r) reads back as (%s, %s)',
                      cls.__name__, g, h, c.xd, c.yd)
            mon.see('numbers that compare equal')


def as_float(x):
    try:
        return float(x) if x else 0.0
    except OverflowError:
        return math.copysign(float('inf'), x)


def digits(x):
    """Whether a number has at most 28 significant digits and a moderate exponent."""
    if x == 0:
        return True
    n, e = x.numerator, 0
    d = x.denominator
    while d != 1:
        n *= 10
        e += 1
        g = math.gcd(n, d)
        n, d = n // g, d // g
        if e > 400:
            return False
    n = abs(n)
    while n % 10 == 0:
        n //= 10
    return len(str(n)) <= 28
