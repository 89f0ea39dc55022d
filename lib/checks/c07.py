"""C07: clipping leaves nothing outside and closes the whole border."""
from lib.diagram import *
from lib.checks import c02

RULE = ('Layout generators and fixed degenerate layouts, plus large ones, with zero-length-edge removal on and off; the '
        'monitor checks that every end is a fixed vertex in the polygon and follows the border edges around, past every corner and crossing; each belongs to the nearest site. Distinct: by shape.')
ASSUMPTIONS = ['sites are distinct and inside or on a convex polygon', 'no Voronoi vertex on the border of the polygon']
MUST_SEE = ['ends inside', 'border edges', 'corners passed', 'crossings passed', 'large diagrams']
LIMIT = 120
describe = c02.describe


def jobs(seed, tier):
    out = fixed_jobs() + gen_jobs(seed, 20 if tier == 'quick' else 500) + thousand_jobs(seed, tier)
    for k in c02.BIGKINDS:
        for n, r in ([(400, 1)] if tier == 'quick' else [(300, 6), (3000, 1)]):
            out += [{'big': k, 'n': n, 'seed': '%s.%s' % (seed, i), 'weight': n} for i in range(r)]
    return out


def run(job, mon):
    if 'big' in job:
        poly, sites = c02.big(job['big'], job['n'], job['seed'])
        corners = [(float(x), float(y)) for x, y in gen.hull([(float(x), float(y)) for x, y in poly], keep_collinear=True)]
        tol = 1e-6 * 200
        mon.see('large diagrams')
        mon.shape('big', job['big'], len(sites))
        o = None
    else:
        c = judge(job, mon)
        if not c:
            return
        poly, sites, o = c
        corners, tol = o.fpoly, o.tol
    fs = np.array([(float(x), float(y)) for x, y in sites])
    from foronoi.graph import Vertex
    perimeter = sum(dist(corners[k], corners[k - 1]) for k in range(len(corners)))

    def outside(p):
        for k in range(len(corners)):
            a, b = corners[k], corners[(k + 1) % len(corners)]
            if ((b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])) < -tol * dist(a, b):
                return True
        return False
    for flag in (True, False):
        v = build(poly, sites, flag)
        for x in v.vertices:
            if x.xd is None or x.yd is None or not (x.xd.is_finite() and x.yd.is_finite()):
                mon.bad('flag %s: there is a vertex without a position' % flag)
                return
            mon.check(not outside(xy(x)), 'flag %s: the vertex %s is outside the polygon', flag, coords(x))
        border = {}
        total = 0.0
        nb = 0
        for e in v.edges:
            for h in (e, e.twin):
                if not isinstance(h.origin, Vertex) or h.get_origin() is None:
                    mon.bad('flag %s: the edge %s has an end %s that is not fixed' % (flag, h, h.origin))
                    return
                mon.check(not outside(xy(h.origin)), 'flag %s: the edge %s ends outside the polygon, at %s', flag, h, coords(h.origin))
                mon.see('ends inside')
            if e.incident_point is None or e.twin.incident_point is None:
                nb += 1
                inner = [p for p in (e.incident_point, e.twin.incident_point) if p is not None]
                if mon.check(len(inner) == 1, 'flag %s: the outer edge %s has %d cells', flag, e, len(inner)):
                    m = ((e.origin.x + e.twin.origin.x) / 2, (e.origin.y + e.twin.origin.y) / 2)
                    d = np.hypot(fs[:, 0] - m[0], fs[:, 1] - m[1])
                    mon.check(dist(m, xy(inner[0])) <= d.min() + 4 * tol, 'flag %s: the border at %r does not belong to the nearest site', flag, m)
                total += edge_len(e)
                mon.check(poly_dist(xy(e.origin), corners) <= tol and poly_dist(xy(e.twin.origin), corners) <= tol,
                          'flag %s: the outer edge %s is not on the border', flag, e)
                for h in (e, e.twin):
                    border.setdefault(id(h.origin), []).append(h)
        mon.see('border edges', nb)
        mon.check(abs(total - perimeter) <= 4 * tol * (nb + 1), 'flag %s: the border edges have length %r, the perimeter is %r',
                  flag, total, perimeter)
        for hs in border.values():
            mon.check(len(hs) == 2, 'flag %s: %d border edges end in %s', flag, len(hs), coords(hs[0].origin))
        if mon.violations:
            return
        # go around once
        h = next(iter(border.values()))[0]
        start, turn, passed = h, 0.0, []
        for _ in range(nb):
            passed.append(xy(h.origin))
            a, b = border[id(h.twin.origin)]
            h = b if a is h.twin else a
        mon.check(h is start, 'flag %s: the border edges are not one closed outline', flag)
        mon.check(abs(abs(farea(passed)) - abs(farea(corners))) <= 4 * tol * perimeter,
                  'flag %s: the border edges enclose an area of %r instead of %r', flag, abs(farea(passed)), abs(farea(corners)))
        near = Nearest(passed)
        for k in corners:
            mon.check(near(k)[1] <= tol, 'flag %s: the border edges do not pass through the corner %r', flag, k)
            mon.see('corners passed')
        if o:
            for p in o.boundary:
                p = (float(p[0]), float(p[1]))
                mon.check(near(p)[1] <= tol, 'flag %s: the border edges do not pass through the crossing %r', flag, p)
                mon.see('crossings passed')
