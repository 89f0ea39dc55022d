"""C25: the accessors of a cell agree with each other and with the diagram, and change nothing."""
import random
from lib.diagram import *
from lib import steps
from lib.checks import c13, c23

RULE = ('Layout generators and fixed degenerate layouts with the removal of zero-length edges on and off, circles, and every step of '
        'constructions; the accessors of every site are compared with the half-edges and with the exact area of the listed '
        'vertices, and the whole diagram before and after. Distinct: by combinatorial shape.')
ASSUMPTIONS = ['sites are distinct and inside or on a convex polygon or inside a circle', 'no Voronoi vertex on the border',
               'areas are computed in floats from absolute coordinates, so that far from the origin they have the rounding error of that']
MUST_SEE = ['cells', 'areas', 'areas with digits', 'areas with a negative number of digits', 'unfinished cells', 'unfinished cells with vertices',
            'sites without edges', 'sites of no diagram', 'cells in a circle', 'triangles', 'cells of six or more edges', 'cells of more than a hundred borders']


def jobs(seed, tier):
    q = tier == 'quick'
    out = fixed_jobs() + gen_jobs(seed, 8 if q else 250) + thousand_jobs(seed, tier)
    out += [{'layout': k, 'seed': '%s.%s' % (seed, s)} for k in c23.LAYOUTS for s in range(4 if q else 60)]
    # cells with many borders
    out += [{'star': '%s.%s' % (seed, s)} for s in range(3 if q else 24)]
    return out


def describe(job):
    from lib import diagram
    return c23.describe(job) if 'layout' in job else diagram.describe(job)


def exact_area(pts):
    s = F(0)
    for k, (x, y) in enumerate(pts):
        x2, y2 = pts[(k + 1) % len(pts)]
        s += x * y2 - y * x2
    return abs(s) / 2


def accessors(s, mon, limit, what, rng, finished, area=True):
    """Everything about one site; returns False after a violation."""
    B = s.borders()
    V = s.vertices()
    if not mon.check(isinstance(B, list) and isinstance(V, list), '%s: borders or vertices are no list: %r, %r', what, B, V):
        return
    # the chain of half-edges
    want, e = [], s.first_edge
    while e is not None and len(want) <= limit:
        want.append(e)
        e = e.next
        if e is s.first_edge:
            break
    if finished:
        mon.check(e is s.first_edge and e is not None, '%s: the borders are not a cycle', what)
    mon.check(len(B) == len(want) and all(a is b for a, b in zip(B, want)), '%s: there are %d borders instead of the %d from the first edge on',
              what, len(B), len(want))
    from foronoi.graph import Vertex
    wv = [e.origin for e in want if isinstance(e.origin, Vertex)]
    mon.check(len(V) == len(wv) and all(a is b for a, b in zip(V, wv)), '%s: the vertices %s are not the origins of the borders, %s', what,
              [coords(p) for p in V][:9], [coords(p) for p in wv][:9])
    if finished:
        mon.check(len(V) == len(B), '%s: there are %d vertices for %d borders', what, len(V), len(B))
    if any(p.xd is None for p in wv):
        return
    B2, V2 = s.borders(), s.vertices()
    mon.check(B2 is not B and V2 is not V and all(a is b for a, b in zip(B2, B)) and all(a is b for a, b in zip(V2, V)),
              '%s: asking again gives other borders or vertices', what)
    del B2[:], V2[:]
    mon.check(len(s.borders()) == len(B) and len(s.vertices()) == len(V), '%s: the lists of borders and vertices are not copies', what)
    if not area:
        return
    a = s.area()
    P = [exy(p) for p in wv]
    exact = exact_area(P)
    m = max([abs(float(c)) for p in P for c in p], default=0)
    tol = 1e-12 * float(exact) + 4e-16 * (len(P) + 2) * m * m + 1e-300
    mon.check(isinstance(a, float) and type(a) is float, '%s: the area %r is not a float', what, a)
    mon.check(abs(F(a) - exact) <= F(tol), '%s: the area is %r instead of %r', what, a, float(exact))
    mon.check(s.area() == a and s.area(digits=None) == a, '%s: asking again gives another area', what)
    mon.see('areas')
    for d in {0, 2, rng.randint(-3, 9)}:
        r = s.area(digits=d) if rng.random() < .5 else s.area(d)
        mon.see('areas with digits')
        mon.see('areas with a negative number of digits', d < 0)
        unit = F(10) ** -d
        mon.check(isinstance(r, (float, int)), '%s: the rounded area %r is not a number', what, r)
        noise = F(4e-16) * (F(a) + unit)
        mon.check(abs(F(float(r)) - F(a)) <= unit / 2 + noise, '%s: the area %r rounded to %d digits is %r', what, a, d, r)
        q = F(float(r)) / unit
        mon.check(abs(q - round(q)) * unit <= noise, '%s: the area %r rounded to %d digits is %r', what, a, d, r)


def run(job, mon):
    rng = random.Random('c25' + str(job.get('seed')))
    from foronoi.graph import Point
    for p in (Point(3, 4), Point(3, 4, name='a'), Point()):
        mon.check(p.borders() == [] and p.vertices() == [] and p.area() == 0 and p.area(digits=3) == 0, 'a site of no diagram has borders or an area')
        mon.see('sites of no diagram')
    if 'star' in job:
        return star(job, mon)
    if 'layout' in job:
        from foronoi import Voronoi
        from foronoi.contrib import BoundingCircle
        circle, S = c23.make(job)
        if c23.expected(circle, S)[3] or len(S) < 2:
            mon.skip('a vertex on the circle')
            return
        v = Voronoi(BoundingCircle(*circle))
        v.create_diagram(S)
        before = c13.full(v)
        for i, s in enumerate(v.sites):
            if s.first_edge is None:
                mon.see('sites without edges in a circle')
                mon.check(not any(h.incident_point is s for h in half_edges(v)), 'site %d has edges but no first edge', i)
                mon.check(s.borders() == [] and s.vertices() == [] and s.area() == 0, 'a site without edges has borders or an area')
                continue
            accessors(s, mon, 2 * len(v.edges) + 2, 'site %d' % i, rng, True, area=False)
            mon.see('cells in a circle')
        mon.check(c13.full(v) == before, 'the accessors changed the diagram')
        mon.shape(str(circle), len(v.edges))
        return
    c = judge(job, mon)
    if not c:
        return
    poly, sites, o = c
    for flag in (True, False):
        v = build(poly, sites, flag)
        before = c13.full(v)
        for i, s in enumerate(v.sites):
            accessors(s, mon, 2 * len(v.edges) + 2, 'flag %s: site %d' % (flag, i), rng, True)
            mon.see('cells')
            mon.see('triangles', len(o.cells[i]) == 3)
            mon.see('cells of six or more edges', len(o.cells[i]) >= 6)
        mon.check(c13.full(v) == before, 'flag %s: the accessors changed the diagram', flag)
        if mon.violations:
            return
    # during the construction, at some of the steps; the result has to be the one without looking
    every = max(1, len(sites) // 6)
    k = [0]

    def step(a):
        k[0] += 1
        if k[0] % every and k[0] > 3:
            return
        for i, s in enumerate(a.sites):
            if s.first_edge is None:
                mon.see('sites without edges')
                mon.check(s.borders() == [] and s.vertices() == [] and s.area() == 0, 'a site without edges has borders or an area')
                continue
            accessors(s, mon, 6 * len(sites) + 9, 'step %d: site %d' % (k[0], i), rng, False)
            mon.see('unfinished cells')
            mon.see('unfinished cells with vertices', bool(s.vertices()))
        if mon.violations:
            raise Violation('see above')
    w = build(poly, sites, False, observers=[steps.make_monitor(step)])
    mon.check(c13.full(w) == before, 'using the accessors during the construction changed the diagram')


def star(job, mon):
    """a site that is surrounded by hundreds of others"""
    rng = random.Random('star' + job['star'])
    n = [2100, 270, 530, 1300, 60, 1030][int(job['star'].split('.')[1]) % 6] + rng.randint(0, 29)
    r = rng.uniform(20, 45)
    T = [2 * math.pi * (k + rng.uniform(-.2, .2)) / n for k in range(n)]
    S = [(50 + r * math.cos(t), 50 + r * math.sin(t)) for t in T]
    S = [(50 + rng.uniform(-1e-3, 1e-3), 50)] + list(dict.fromkeys(S))
    v = build([(0, 0), (100, 0), (100, 100), (0, 100)], S)
    limit = 2 * len(v.edges) + 2
    most = max((len(s.borders()) for s in v.sites), default=0)
    for i, s in enumerate(v.sites):
        if i < 40:
            accessors(s, mon, limit, 'site %d of a star' % i, rng, True)
            mon.see('cells')
    mon.see('cells of more than a hundred borders', most > 100)
    mon.top('borders of a cell', most)
    mon.check(abs(sum(s.area() for s in v.sites) - 10000) < 1e-6, 'the areas of %d cells add up to %r instead of 10000', len(S), sum(s.area() for s in v.sites))
