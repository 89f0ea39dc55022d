"""C06: a vertex lists exactly the half-edges that leave it."""
from lib.diagram import *
from lib.checks import c02, c05

RULE = ('Layout generators and fixed degenerate layouts, plus large ones, with zero-length-edge removal on and off; the '
        'monitor compares the connected edges of every vertex with the half-edges that name it as origin. Distinct: by shape.')
ASSUMPTIONS = c05.ASSUMPTIONS
MUST_SEE = ['vertices', 'half-edges', 'vertices of degree 4 or more', 'large diagrams']
LIMIT = 120
describe = c02.describe
jobs = c05.jobs


def run(job, mon):
    c = c05.case(job, mon)
    if not c:
        return
    poly, sites, tol = c
    for flag in (True, False):
        v = build(poly, sites, flag)
        verify(v, flag, mon)


def verify(v, flag, mon):
    he = half_edges(v)
    ids = {id(h) for h in he}
    vs = v.vertices
    listed = {id(x) for x in vs}
    mon.check(len(listed) == len(vs), 'flag %s: a vertex is listed twice', flag)
    leaving = {}
    for h in he:
        mon.see('half-edges')
        if id(h.origin) not in listed:
            mon.bad('flag %s: the origin %s of %s is not a listed vertex' % (flag, h.origin, h))
        leaving.setdefault(id(h.origin), set()).add(id(h))
    for x in vs:
        mon.see('vertices')
        con = [id(e) for e in x.connected_edges]
        mon.check(len(set(con)) == len(con), 'flag %s: an edge is connected to %s twice', flag, coords(x))
        mon.check(set(con) <= ids, 'flag %s: %s is connected to an edge that is not in the diagram', flag, coords(x))
        mon.check(set(con) == leaving.get(id(x), set()), 'flag %s: %s is connected to %d edges, but %d leave it', flag, coords(x),
                  len(con), len(leaving.get(id(x), ())))
        for e in x.connected_edges:
            mon.check(e.origin is x, 'flag %s: %s is connected to an edge with another origin', flag, coords(x))
        mon.check(len(con) >= 2, 'flag %s: %s has only %d edges', flag, coords(x), len(con))
        if len(con) >= 4:
            mon.see('vertices of degree 4 or more')
