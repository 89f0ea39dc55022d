"""C08: zero-length edge removal removes nothing but zero-length edges."""
from collections import Counter
from lib.diagram import *

RULE = ('Layout generators (weighted towards cocircular layouts) and fixed degenerate layouts are built with zero-length-edge '
        'removal on and off and compared exactly. Distinct: by combinatorial shape.')
ASSUMPTIONS = ['sites are distinct and inside or on a convex polygon', 'no Voronoi vertex on the border of the polygon']
MUST_SEE = ['zero-length edges removed', 'edges kept', 'merged vertices', 'cells compared']
TIED = ['boxint', 'circle', 'circlebottom', 'diamond', 'grid', 'gridf', 'hex', 'intgrid', 'lattice', 'mirror', 'tiedcircles', 'vrows',
        'corner', 'oncorners']


def jobs(seed, tier):
    return fixed_jobs() + gen_jobs(seed, 8 if tier == 'quick' else 150) + \
        gen_jobs(str(seed) + 't', 40 if tier == 'quick' else 800, TIED) + thousand_jobs(seed, tier)


def pos(p):
    return (p.xd, p.yd)


def canonical(cyc):
    """A cycle of positions, without repetitions, starting at the smallest."""
    c = [p for k, p in enumerate(cyc) if p != cyc[k - 1]] or cyc[:1]
    k = c.index(min(c))
    return c[k:] + c[:k]


def run(job, mon):
    c = judge(job, mon)
    if not c:
        return
    poly, sites, o = c
    on, off = build(poly, sites, True), build(poly, sites, False)
    io, jo = index_of(on), index_of(off)
    lim = 2 * len(off.edges) + 4

    def edges(v, ix):
        out = Counter()
        zero = 0
        for e in v.edges:
            p, q = pos(e.origin), pos(e.twin.origin)
            if p == q:
                zero += 1
            else:
                out[frozenset(((ix[id(e.incident_point)], p), (ix[id(e.twin.incident_point)], q)))] += 1
        return out, zero
    a, za = edges(on, io)
    b, zb = edges(off, jo)
    mon.check(za == 0, 'with removal on there are %d edges of zero length', za)
    mon.check(a == b, 'the edges of positive length differ: %d with removal on, %d with it off', sum(a.values()), sum(b.values()))
    mon.see('zero-length edges removed', zb)
    mon.see('edges kept', sum(b.values()))
    pa, pb = Counter(pos(x) for x in on.vertices), {pos(x) for x in off.vertices}
    mon.check(set(pa) == pb, 'the positions of the vertices differ: %d with removal on, %d with it off', len(pa), len(pb))
    # positions where rounding left a third vertex in between, through which several at one place are joined
    split = {pos(x) for x in on.vertices if pa[pos(x)] > 1 and rounded_apart(x, o.scale)}
    mon.see('positions with vertices apart by rounding', len(split))
    several = [p for p, k in pa.items() if k > 1 and p not in split]
    mon.check(not several, 'with removal on there are several vertices at %s', several[:1])
    mon.see('merged vertices', len(off.vertices) - len(on.vertices))
    # the one vertex at a position has all the edges of positive length that start there
    at = {}
    for h in half_edges(off):
        if pos(h.origin) != pos(h.twin.origin):
            at.setdefault(pos(h.origin), Counter())[(pos(h.twin.origin), jo[id(h.incident_point)])] += 1
    have = {p: Counter() for p in pa}
    for x in on.vertices:
        have[pos(x)].update((pos(e.twin.origin), io[id(e.incident_point)]) for e in x.connected_edges)
    for p, got in have.items():
        mon.check(got == at.get(p), 'the vertex at %s has the edges %s', p, dict(got))
    for i, (s, t) in enumerate(zip(on.sites, off.sites)):
        u = canonical([pos(e.origin) for e in walk(s, lim)])
        w = canonical([pos(e.origin) for e in walk(t, lim)])
        mon.check(u == w, 'the cells of site %d differ: %s and %s', i, u, w)
        mon.check(s.area() == t.area() or abs(s.area() - t.area()) <= 1e-12 * (o.maxabs + o.scale) ** 2,
                  'the areas of site %d differ', i)
        mon.see('cells compared')
