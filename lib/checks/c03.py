"""C03: the vertices are exactly the Voronoi vertices, crossings and corners."""
from lib.diagram import *
from lib.checks import c02

RULE = ('Layout generators and fixed degenerate layouts, plus large layouts. Small ones: the vertex list is matched with the '
        'vertices of the exact diagram, with zero-length-edge removal on and off. Large ones: every vertex is tested for the '
        'empty circle and the number of vertices against Euler\'s formula. Distinct: by combinatorial shape.')
ASSUMPTIONS = ['sites are distinct and inside or on a convex polygon', 'no Voronoi vertex on the border of the polygon',
               'cocircular vertices that floats compute at slightly different positions may stay separate']
MUST_SEE = ['vertices matched', 'vertices with an empty circle', 'corners', 'crossings']
LIMIT = 120


def jobs(seed, tier):
    out = fixed_jobs() + gen_jobs(seed, 15 if tier == 'quick' else 400) + thousand_jobs(seed, tier)
    for k in c02.BIGKINDS:
        for n, r in ([(400, 1)] if tier == 'quick' else [(300, 6), (2000, 2)]):
            out += [{'big': k, 'n': n, 'seed': '%s.%s' % (seed, i), 'weight': n} for i in range(r)]
    return out


describe = c02.describe


def large(job, mon):
    poly, sites = c02.big(job['big'], job['n'], job['seed'])
    H = [(float(x), float(y)) for x, y in gen.hull([(float(x), float(y)) for x, y in poly])]
    scale = max(p[0] for p in H) - min(p[0] for p in H)
    tol = 1e-6 * scale
    v = build(poly, sites)
    fs = np.array(sites, float)
    corners = Nearest(H)
    seen = set()
    for x in v.vertices:
        p = xy(x)
        mon.check((x.xd, x.yd) not in seen or rounded_apart(x, scale), 'two vertices at %r', p)
        seen.add((x.xd, x.yd))
        d = np.hypot(fs[:, 0] - p[0], fs[:, 1] - p[1])
        m = d.min()
        k = int((d <= m + tol).sum())
        owners = {id(e.incident_point) for e in x.connected_edges if e.incident_point is not None}
        b = poly_dist(p, H)
        if corners(p)[1] <= tol:
            mon.see('corners')
        elif b <= tol:
            mon.check(k >= 2, 'the vertex %r on the border has %d nearest sites', p, k)
            mon.see('crossings')
        else:
            mon.check(k >= 3, 'the vertex %r has %d nearest sites', p, k)
            mon.see('vertices with an empty circle')
        for e in x.connected_edges:
            s = e.incident_point
            if s is not None:
                mon.check(math.hypot(float(s.xd) - p[0], float(s.yd) - p[1]) <= m + tol,
                          'a site around the vertex %r is not among its nearest', p)
    for c in H:
        mon.check(any(dist(xy(x), c) <= tol for x in v.vertices), 'no vertex at the corner %r', c)
    # every finite planar subdivision: V - E + F = 1 without the outer face
    nv, ne = len(v.vertices), len(v.edges)
    mon.check(nv - ne + len(sites) == 1, '%d vertices, %d edges and %d cells cannot be a subdivision', nv, ne, len(sites))
    mon.shape('big', job['big'], nv)


def run(job, mon):
    if 'big' in job:
        return large(job, mon)
    c = judge(job, mon)
    if not c:
        return
    poly, sites, o = c
    want = [(float(p[0]), float(p[1])) for p in o.at]
    exact = list(o.at)
    multi = [len(o.at[p]) >= 4 for p in exact]
    near = Nearest(want)
    bnd = set(o.boundary)
    for flag in (True, False):
        v = build(poly, sites, flag)
        fs = np.array(o.fsites, float)
        pts = [xy(x) for x in v.vertices]
        hits = [[] for _ in want]
        for x, p in zip(v.vertices, pts):
            i, d = near(p)
            if d > o.tol:
                mon.bad('flag %s: the vertex %s is not one: the nearest one %r is %r away' % (flag, coords(x), want[i], d))
                return
            hits[i].append(x)
        for i, h in enumerate(hits):
            if not h:
                # floats may not tell two vertices apart
                if not any(hits[j] for j in near.within(want[i], o.tol)):
                    mon.bad('flag %s: there is no vertex at %r' % (flag, want[i]))
                continue
            mon.see('vertices matched')
            if exact[i] in o.corners:
                mon.see('corners')
            elif exact[i] in bnd:
                mon.see('crossings')
            else:
                # no site may be closer than the three or more sites of the vertex: seen in floats as well
                x = h[0]
                p = xy(x)
                d = np.hypot(fs[:, 0] - p[0], fs[:, 1] - p[1])
                k = int((d <= d.min() + 4 * o.tol).sum())
                mon.check(k >= 3, 'flag %s: %s has only %d nearest sites', flag, coords(x), k)
                mon.see('vertices with an empty circle')
            if 'near' not in o.kinds:
                if flag:
                    mon.check(len({(x.xd, x.yd) for x in h}) == len(h) or any(rounded_apart(x, o.scale) for x in h), 'there are two vertices at %r', want[i])
                    mon.check(len(h) == 1 or multi[i] and exact[i] not in bnd or
                              len(h) == 2 and exact[i] in o.corners and len(o.at[exact[i]]) == 2, 'there are %d vertices at %r', len(h), want[i])
                    if multi[i] and len(h) > 1:
                        mon.see('cocircular vertices kept apart by rounding')
                elif exact[i] not in bnd:
                    # the edges of a vertex with k cells are resolved into k - 2 vertices with three edges each
                    mon.check(len(h) == max(1, len(o.at[exact[i]]) - 2), 'flag off: there are %d vertices at %r of %d cells',
                              len(h), want[i], len(o.at[exact[i]]))
