"""C05: half-edges form consistent, closed cycles around every cell."""
from lib.diagram import *
from lib.checks import c02

RULE = ('Layout generators and fixed degenerate layouts, plus large ones, with zero-length-edge removal on and off; the '
        'monitor checks the links of every half-edge that belongs to a site and walks every cell. Distinct: by shape.')
ASSUMPTIONS = ['sites are distinct and inside or on a convex polygon', 'no Voronoi vertex on the border of the polygon']
MUST_SEE = ['half-edges', 'cells walked', 'large diagrams']
LIMIT = 120
describe = c02.describe


def jobs(seed, tier):
    out = fixed_jobs() + gen_jobs(seed, 20 if tier == 'quick' else 500) + thousand_jobs(seed, tier)
    for k in c02.BIGKINDS:
        for n, r in ([(400, 1)] if tier == 'quick' else [(300, 6), (3000, 1)]):
            out += [{'big': k, 'n': n, 'seed': '%s.%s' % (seed, i), 'weight': n} for i in range(r)]
    return out


def case(job, mon):
    if 'big' in job:
        poly, sites = c02.big(job['big'], job['n'], job['seed'])
        mon.see('large diagrams')
        mon.shape('big', job['big'], len(sites))
        return poly, sites, 1e-6 * 200
    c = judge(job, mon)
    return c and (c[0], c[1], c[2].tol)


def run(job, mon):
    c = case(job, mon)
    if not c:
        return
    poly, sites, tol = c
    for flag in (True, False):
        v = build(poly, sites, flag)
        verify(v, flag, tol, mon)


def verify(v, flag, tol, mon, where='', empty=()):
    ix = index_of(v)
    he = half_edges(v)
    ids = {id(h) for h in he}
    mon.check(len(ids) == len(he), '%sflag %s: a half-edge is listed twice', where, flag)
    per = [0] * len(v.sites)
    for h in he:
        mon.see('half-edges')
        if h.twin is None or h.twin.twin is not h or h.twin is h:
            mon.bad('%sflag %s: the twin of the twin of %s is another half-edge' % (where, flag, h))
            return
        mon.check(h.target is h.twin.origin, '%sflag %s: the target of %s is not the origin of its twin', where, flag, h)
        if h.incident_point is None:
            continue
        if id(h.incident_point) not in ix:
            mon.bad('%sthe site of a half-edge is not one of the sites' % where)
            return
        per[ix[id(h.incident_point)]] += 1
        if h.next is None or h.prev is None:
            mon.bad('%sflag %s: %s has no next or previous half-edge' % (where, flag, h))
            continue
        mon.check(h.next.prev is h, '%sflag %s: prev of next of %s is another half-edge', where, flag, h)
        mon.check(h.prev.next is h, '%sflag %s: next of prev of %s is another half-edge', where, flag, h)
        mon.check(h.next.incident_point is h.incident_point, '%sflag %s: next of %s has another site', where, flag, h)
        mon.check(h.next.origin is h.twin.origin, '%sflag %s: next of %s does not start where it ends', where, flag, h)
        mon.check(id(h.next) in ids and id(h.prev) in ids, '%sflag %s: %s leads to a half-edge that is not listed', where, flag, h)
    sign = 0
    for i, s in enumerate(v.sites):
        if i in empty:
            mon.check(per[i] == 0, '%sflag %s: site %d has %d half-edges', where, flag, i, per[i])
            continue
        w = walk(s, len(he) + 2)
        for e in w:
            mon.check(e.incident_point is s, '%sflag %s: the walk around site %d passes a half-edge of another site', where, flag, i)
        mon.check(len(w) == per[i], '%sflag %s: the walk around site %d visits %d of its %d half-edges', where, flag, i, len(w), per[i])
        mon.check(len({id(e) for e in w}) == len(w), '%sflag %s: the walk around site %d repeats a half-edge', where, flag, i)
        C = [xy(e.origin) for e in w]
        a = farea(C)
        if abs(a) > tol * sum(dist(C[k], C[k - 1]) for k in range(len(C))):
            mon.check(sign == 0 or (a > 0) == (sign > 0), '%sflag %s: the cell of site %d turns the other way', where, flag, i)
            sign = sign or (1 if a > 0 else -1)
        mon.see('cells walked')
