"""C04: each border between two cells is listed once and lies on the bisector; the other edges line the polygon."""
from lib.diagram import *

RULE = ('Layout generators and fixed degenerate layouts; the list of edges, with zero-length-edge removal on and off, is '
        'matched with the adjacencies and border stretches of the exact diagram. Distinct: by combinatorial shape.')
ASSUMPTIONS = ['sites are distinct and inside or on a convex polygon', 'no Voronoi vertex on the border of the polygon',
               'rounding may leave edges of negligible length between cells that meet in a point only']
MUST_SEE = ['shared edges matched', 'border edges matched']


def jobs(seed, tier):
    return fixed_jobs() + gen_jobs(seed, 18 if tier == 'quick' else 400) + thousand_jobs(seed, tier)


def run(job, mon):
    c = judge(job, mon)
    if not c:
        return
    poly, sites, o = c
    stretches = [(tuple(map(float, a)), tuple(map(float, b)), i) for a, b, i in o.border_walk()]
    for flag in (True, False):
        v = build(poly, sites, flag)
        ix = index_of(v)
        seen = set()
        shared = {}
        border = []
        for e in v.edges:
            mon.check(id(e) not in seen and id(e.twin) not in seen, 'an edge is listed twice')
            seen.add(id(e))
            seen.add(id(e.twin))
            a, b = e.incident_point, e.twin.incident_point
            if id(a) not in ix or id(b) not in ix:
                mon.bad('an edge has a site %s/%s that is not one of the sites' % (a, b))
                return
            i, j = ix[id(a)], ix[id(b)]
            p, q = xy(e.origin), xy(e.twin.origin)
            if i < 0 and j < 0 or i == j:
                mon.bad('the edge %r-%r has the sites %d and %d' % (p, q, i, j))
                return
            if i < 0 or j < 0:
                border.append((p, q, max(i, j)))
            else:
                shared.setdefault(frozenset((i, j)), []).append((p, q))
        for pair, es in shared.items():
            es = [s for s in es if dist(*s) > 4 * o.tol or flag and len(es) == 1 and pair in o.adj]
            if not es:
                continue
            if pair not in o.adj:
                mon.bad('flag %s: there is an edge %r between the cells of %s that have no common border'
                        % (flag, es[0], sorted(pair)))
                continue
            mon.check(len(es) == 1, 'flag %s: there are %d edges between the cells of %s', flag, len(es), sorted(pair))
            w = [tuple(map(float, p)) for p in o.adj[pair]]
            p, q = es[0]
            d = min(max(dist(p, w[0]), dist(q, w[1])), max(dist(p, w[1]), dist(q, w[0])))
            mon.check(d <= o.tol, 'flag %s: the edge between the cells of %s is %r-%r instead of %r', flag, sorted(pair), p, q, w)
            i, j = pair
            for r in (p, q):
                di, dj = dist(r, o.fsites[i]), dist(r, o.fsites[j])
                mon.check(abs(di - dj) <= 2 * o.tol, 'the end %r of the edge between %s is not on their bisector', r, sorted(pair))
            mon.see('shared edges matched')
        for pair, w in o.adj.items():
            if dist(*[tuple(map(float, p)) for p in w]) > 8 * o.tol and pair not in shared:
                mon.bad('flag %s: there is no edge between the cells of %s' % (flag, sorted(pair)))
        used = [0.0] * len(stretches)
        for p, q, i in border:
            if dist(p, q) <= 4 * o.tol:
                continue
            m = ((p[0] + q[0]) / 2, (p[1] + q[1]) / 2)
            k = min(range(len(stretches)), key=lambda t: seg_dist(m, stretches[t][0], stretches[t][1]))
            a, b, w = stretches[k]
            mon.check(max(seg_dist(p, a, b), seg_dist(q, a, b)) <= 2 * o.tol,
                      'flag %s: the edge %r-%r of site %d is not on a stretch of the border that is in one cell', flag, p, q, i)
            mon.check(w == i, 'flag %s: the edge %r-%r on the border has the site %d instead of %d', flag, p, q, i, w)
            used[k] += dist(p, q)
            mon.see('border edges matched')
        for (a, b, i), u in zip(stretches, used):
            mon.check(abs(u - dist(a, b)) <= 16 * o.tol, 'flag %s: the stretch %r-%r of the border is lined for a length of %r',
                      flag, a, b, u)
