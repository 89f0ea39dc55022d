"""C26: sites outside of the polygon take part, and keep what their cells cover of it."""
import random
from lib.diagram import *
from lib.checks import c05, c06

RULE = ('The layouts of all generators with a polygon that leaves some or all of the sites outside: made smaller about a point, '
        'moved, with all sites at up to 3000 times its size in one or two directions, or with more sites added around it at one to a hundred times its size. Every cell is compared with the exact one, '
        'and the links of all half-edges and vertices are followed, with zero-length-edge removal on and off. Distinct: by shape.')
ASSUMPTIONS = ['sites are distinct, the polygon is convex', 'no Voronoi vertex on the border of the polygon and no cell that only touches it']
MUST_SEE = ['sites outside', 'cells of sites outside that reach in', 'cells that do not reach the polygon', 'cells compared',
            'diagrams with all sites outside', 'half-edges', 'diagrams in one cell of a site outside', 'diagrams of more than a thousand sites']
LIMIT = 90


def jobs(seed, tier):
    q = tier == 'quick'
    return gen_jobs(seed, 12 if q else 300) + [{'many': '%s.%s' % (seed, k), 'weight': 1500, 'limit': 240} for k in range(3 if q else 24)]


def many(seed):
    """a polygon in or around the cells of a few of very many sites"""
    rng = random.Random('many' + seed)
    kind = int(seed.split('.')[1]) % 3
    n = rng.randint(1050, 1500)
    sites = [(rng.uniform(-1000, 1000), rng.uniform(-1000, 1000)) for _ in range(n)]
    sites = [s for s in sites if max(abs(s[0]), abs(s[1])) > 100]
    k = rng.choice([len(sites), len(sites) - rng.randint(0, 40), rng.randint(0, len(sites))])
    if kind == 0:       # within one cell
        sites.insert(k, (rng.uniform(-1, 1), rng.uniform(-1, 1)))
        r = rng.uniform(1, 20)
    elif kind == 1:     # with the only inner site not in the list
        r = rng.uniform(20, 60)
    else:
        sites.insert(k, (rng.uniform(-1, 1), rng.uniform(-1, 1)))
        r = rng.uniform(60, 300)
    P = gen.random_convex(rng)
    P = [((float(x) - 50) / 50 * r, (float(y) - 50) / 50 * r) for x, y in P]
    return P, sites


def make(job):
    if 'many' in job:
        return many(job['many'])
    rng = random.Random('out/%s/%s' % (job['gen'], job['seed']))
    poly, sites = gen.make(job['gen'], job['seed'])
    H = [(fr(x), fr(y)) for x, y in poly]
    cx, cy = sum(p[0] for p in H) / len(H), sum(p[1] for p in H) / len(H)
    w = max(p[0] for p in H) - min(p[0] for p in H)
    h = max(p[1] for p in H) - min(p[1] for p in H)

    def num(f):
        return float(f)
    how = rng.choice(['small', 'small', 'move', 'box', 'ring', 'ring', 'side'])
    if how == 'small':
        # about a corner, a site or a point of the polygon
        a, b = rng.choice([rng.choice(H), (cx, cy), tuple(map(fr, rng.choice(sites)))])
        k = F(rng.choice([1, 2, 3, 5, 7, 9]), 10)
        a, b = a + F(rng.randint(-9, 9), 97) * w / 10, b + F(rng.randint(-9, 9), 89) * h / 10
        P = [(num(a + k * (x - a)), num(b + k * (y - b))) for x, y in H]
    elif how == 'move':
        a, b = F(rng.randint(-15, 15), 10) * w + w / 997, F(rng.randint(-15, 15), 10) * h + h / 991
        P = [(num(x + a), num(y + b)) for x, y in H]
    elif how == 'box':
        x0, y0 = cx + w * F(rng.randint(-100, 100), 211), cy + h * F(rng.randint(-100, 100), 223)
        a, b = w * F(rng.randint(1, 50), 103), h * F(rng.randint(1, 50), 107)
        P = gen.box(num(x0 - a), num(y0 - b), num(x0 + a), num(y0 + b))
    elif how == 'side':
        # all sites far away, in one or two directions, such that their borders cross the polygon
        P = poly
        size = float(max(w, h))
        sites = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            t, r = rng.choice([rng.random() * 6.283, rng.randint(0, 3) * math.pi / 2]), size * rng.choice([1, 4, 10, 30, 100, 400, 3000])
            q = (float(cx + w * F(rng.randint(-30, 30), 107)), float(cy + h * F(rng.randint(-30, 30), 109)))
            ux, uy = rng.choice([(math.cos(t), math.sin(t)), (round(math.cos(t)), round(math.sin(t)))])
            b = (q[0] + r * ux, q[1] + r * uy)
            d = size * rng.choice([.01, .1, .5, 2])
            for k in range(rng.randint(1, 3)):
                m, f = size * rng.uniform(-.3, .3) if k else 0, rng.choice([.9, 1, 1.1]) if k else 1
                sites += [(b[0] - uy * (m + d * f), b[1] + ux * (m + d * f)), (b[0] - uy * (m - d * f), b[1] + ux * (m - d * f))]
        if any(gen.in_convex(H, tuple(map(fr, x))) for x in sites):
            sites = [x for x in sites if not gen.in_convex(H, tuple(map(fr, x)))] or sites[:1]
        sites = list(dict.fromkeys(sites))
        rng.shuffle(sites)
    else:
        P = poly
        have = {tuple(map(fr, s)) for s in sites}
        sites = list(sites)
        for _ in range(rng.randint(1, 12)):
            r = rng.choice([F(6, 10), F(8, 10), 1, 2, 10, 100])
            t = rng.random() * 6.283
            s = rng.choice([(num(cx + w * r * fr(math.cos(t))), num(cy + h * r * fr(math.sin(t)))),
                            (num(cx + w * r * rng.choice([-1, 1])), num(fr(rng.choice(sites)[1]))),
                            (num(fr(rng.choice(sites)[0])), num(cy + h * r * rng.choice([-1, 1])))])
            if tuple(map(fr, s)) not in have:
                have.add(tuple(map(fr, s)))
                sites.append(s)
        rng.shuffle(sites)
    return P, sites


def describe(job):
    if 'poly' in job:
        return job
    poly, sites = make(job)
    return dict(job, poly=[[str(x), str(y)] for x, y in poly], sites=[[str(x), str(y)] for x, y in sites])


def clear(o):
    """Whether the cells that reach the polygon and their borders stay the same for a slightly larger or smaller polygon."""
    cx, cy = sum(p[0] for p in o.poly) / len(o.poly), sum(p[1] for p in o.poly) / len(o.poly)
    for k in (F(10 ** 7 + 1, 10 ** 7), F(10 ** 7 - 1, 10 ** 7)):
        q = Oracle([(cx + k * (x - cx), cy + k * (y - cy)) for x, y in o.poly], o.sites)
        if [bool(c) for c in q.cells] != [bool(c) for c in o.cells] or set(q.adj) != set(o.adj) or len(q.at) != len(o.at):
            return False
    return True


def run(job, mon):
    poly, sites = expand(job) if 'poly' in job else make(job)
    o = Oracle(poly, sites)
    if not o.structural or not clear(o):
        mon.skip('vertex on the border' if {'vonb', 'nearvonb'} & o.kinds else
                 'ill-conditioned' if not o.wellposed else 'nearly coinciding vertices')
        return
    mon.see('diagrams of more than a thousand sites', len(sites) > 1000)
    outside = {i for i, s in enumerate(o.sites) if not gen.in_convex(o.poly, s)}
    empty = {i for i, c in enumerate(o.cells) if not c}
    mon.see('sites outside', len(outside))
    mon.see('cells of sites outside that reach in', len(outside - empty))
    mon.see('cells that do not reach the polygon', len(empty))
    if len(outside) == len(sites):
        mon.see('diagrams with all sites outside')
    if len(empty) == len(sites) - 1 and outside - empty:
        mon.see('diagrams in one cell of a site outside')
    for flag in (True, False):
        v = build(poly, sites, flag)
        mon.check(len(v.sites) == len(sites), 'there are %d sites instead of %d', len(v.sites), len(sites))
        c05.verify(v, flag, o.tol, mon, empty=empty)
        c06.verify(v, flag, mon)
        near = Nearest([(float(x), float(y)) for x, y in o.at])
        hit = set()
        for x in v.vertices:
            i, d = near(xy(x))
            hit.add(i)
            mon.check(d <= o.tol, 'flag %s: there is a vertex at %s, %r away from the nearest one', flag, coords(x), d)
        mon.check(len(hit) == len(o.at), 'flag %s: there are vertices at %d of %d positions', flag, len(hit), len(o.at))
        if mon.violations:
            return
        lim = 2 * len(v.edges) + 4
        for i, s in enumerate(v.sites):
            mon.check((fr(s.xd), fr(s.yd)) == o.sites[i], 'site %d moved to %s', i, coords(s))
            if i in empty:
                mon.check(s.borders() == [] and s.vertices() == [] and s.area() == 0,
                          'flag %s: the cell of site %d does not reach the polygon, but it has the borders %s', flag, i, s.borders())
                continue
            got = [xy(e.origin) for e in walk(s, lim)]
            m = compare_cells(got, o.fcells[i], o.tol)
            mon.check(not m, 'flag %s: the cell of site %d, %s, %s', flag, i, coords(s), m)
            mon.see('cells compared')
        # who is next to whom
        ix = index_of(v)
        pairs = {frozenset((ix[id(e.incident_point)], ix[id(e.twin.incident_point)])) for e in v.edges
                 if e.incident_point is not None and e.twin.incident_point is not None and edge_len(e) > 4 * o.tol}
        for p in pairs:
            mon.check(p in o.adj, 'flag %s: there is an edge between the cells of %s that have no common border', flag, sorted(p))
        for p, (a, b) in o.adj.items():
            if p not in pairs:
                mon.check(dist((float(a[0]), float(a[1])), (float(b[0]), float(b[1]))) <= 8 * o.tol,
                          'flag %s: there is no edge between the cells of %s', flag, sorted(p))
    mon.see('diagrams')
    mon.shape(signature(o), len(empty), len(outside))
