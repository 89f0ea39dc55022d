"""C01: every cell equals the exact nearest-neighbour region."""
from lib.diagram import *
from lib.oracle import fr

RULE = ('Cases: %d layout generators (lib/gen.py) and fixed degenerate layouts; the finished diagram is compared with the '
        'cells obtained by clipping the polygon with half-planes in exact rational arithmetic. Non-trivial and distinct: '
        'by combinatorial shape of the exact diagram (corners per cell, adjacencies, degeneracies).' % len(gen.ALL))
ASSUMPTIONS = ['sites are distinct and inside or on a convex polygon',
               'no Voronoi vertex on the border of the polygon (known findings), inputs conditioned well enough for floats']
MUST_SEE = ['cells compared']


def jobs(seed, tier):
    return fixed_jobs() + gen_jobs(seed, 26 if tier == 'quick' else 600) + thousand_jobs(seed, tier)


def run(job, mon):
    poly, sites = expand(job)
    o = Oracle(poly, sites)
    if (({'vonb', 'nearvonb'} & o.kinds) or o.tol > 1e-3 * o.scale) and 'known' not in job:
        mon.skip('vertex on the border' if {'vonb', 'nearvonb'} & o.kinds else 'ill-conditioned')
        return
    v = build(poly, sites)
    mon.check(len(v.sites) == len(sites), 'there are %d sites instead of %d', len(v.sites), len(sites))
    pts = cell_points(v)
    for i, s in enumerate(v.sites):
        if (fr(s.xd), fr(s.yd)) != o.sites[i]:
            mon.bad('site %d moved to %s' % (i, coords(s)))
            continue
        got = [(float(x), float(y)) for x, y in pts[i]]
        m = compare_cells(got, o.fcells[i], o.tol)
        if m:
            mon.bad('the cell of site %s %s' % (coords(s), m))
        # the public accessors have to tell the same
        acc = [xy(p) for p in s.vertices()]
        m = compare_cells(acc, o.fcells[i], o.tol)
        if m:
            mon.bad('vertices() of site %s %s' % (coords(s), m))
        per = sum(dist(o.fcells[i][k], o.fcells[i][k - 1]) for k in range(len(o.fcells[i])))
        a = s.area()
        if not abs(a - float(o.areas[i])) <= o.tol * per + 1e-14 * (len(got) + 8) * (o.maxabs + o.scale) ** 2:
            mon.bad('area() of site %s is %r instead of %r' % (coords(s), a, float(o.areas[i])))
        mon.see('cells compared')
        mon.see('corners compared', len(got))
    mon.see('diagrams')
    for k in o.kinds:
        mon.see('diagrams with ' + k)
    mon.shape(signature(o))
