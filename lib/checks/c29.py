"""C29: operations on half-edges keep neighbours, twins, vertices and sites linked."""
import random
from lib.diagram import *

RULE = ('Random histories of operations (linking, pairing, deleting, moving ends, asking for ends) on rings and open chains of half-edges '
        'around several sites and on copies of finished diagrams, against a model of the links; after every operation all records are '
        'compared. Distinct: by the history of operations and the sizes of the rings.')
ASSUMPTIONS = ['what a deleted half-edge itself refers to is not specified', 'half-edges are deleted once, while their origin lists them']
MUST_SEE = ['linked', 'paired', 'paired again', 'twins taken away', 'deleted', 'deleted first edges', 'deleted last edges of a ring', 'deleted in open chains', 'ends at vertices',
            'ends at breakpoints', 'ends nowhere', 'records compared', 'ends moved', 'half-edges of diagrams deleted', 'linked half-edges of different sites']
KINDS = ['box', 'conv', 'intgrid', 'few', 'tri', 'grid', 'mirror', 'hex']


def jobs(seed, tier):
    q = tier == 'quick'
    return [{'hist': '%s.%s' % (seed, k)} for k in range(600 if q else 20000)] + gen_jobs(seed, 5 if q else 80, KINDS)


class Model:
    def __init__(self):
        self.edges, self.next, self.prev, self.twin, self.origin = [], {}, {}, {}, {}
        self.first, self.conn, self.site, self.loose = {}, {}, {}, set()

    def compare(self, mon, what):
        mon.see('records compared')
        for e in self.edges:
            k = id(e)
            mon.check(e.next is self.next.get(k), '%s, the next half-edge of %s is wrong', what, k and self.name(e))
            if k not in self.loose:
                mon.check(e.prev is self.prev.get(k), '%s, the half-edge before %s is wrong', what, self.name(e))
            t = self.twin.get(k)
            mon.check(e.twin is t, '%s, the twin of %s is wrong', what, self.name(e))
            mon.check(e.target is (t.origin if t is not None else None), '%s, the target of %s is not the origin of its twin', what, self.name(e))
            mon.check(e.origin is self.origin.get(k), '%s, the origin of %s is wrong', what, self.name(e))
            mon.check(e.incident_point is self.site.get(k), '%s, the site of %s is wrong', what, self.name(e))
        for v, l in self.conn.values():
            mon.check(len(v.connected_edges) == len(l) and {id(x) for x in v.connected_edges} == {id(x) for x in l},
                      '%s, the vertex %s lists %d half-edges instead of %d', what, coords(v), len(v.connected_edges), len(l))
        for s, e in self.first.values():
            mon.check(s.first_edge is e, '%s, the first edge of %s is %s', what, s, 'wrong' if s.first_edge is not None else 'gone')
        if mon.violations:
            raise Violation('see above')

    def name(self, e):
        return 'half-edge %d' % next((i for i, x in enumerate(self.edges) if x is e), -1)

    def delete(self, e, mon):
        k = id(e)
        p, n, s, o = self.prev.get(k), self.next.get(k), self.site.get(k), self.origin.get(k)
        e.delete()
        mon.see('deleted')
        self.edges = [x for x in self.edges if x is not e]
        if id(o) in self.conn:
            v, l = self.conn[id(o)]
            self.conn[id(o)] = (v, [x for x in l if x is not e])
        if p is not None and p is not e:
            self.next[id(p)] = n
            if n is not None:
                self.prev[id(n)] = p
                self.loose.discard(id(n))
        elif n is not None and n is not e:
            self.loose.add(id(n))       # nothing says what is before it now
        if n is None and p is None:
            mon.see('deleted in open chains')
        if s is not None and self.first.get(id(s), (s, None))[1] is e:
            mon.see('deleted first edges')
            self.first[id(s)] = (s, n if n is not e else None)
            if n is e:
                mon.see('deleted last edges of a ring')
        return e


def run(job, mon):
    if 'hist' in job:
        history(job, mon)
    else:
        diagram(job, mon)


def history(job, mon):
    from foronoi.graph import HalfEdge, Vertex, Point, Coordinate
    from foronoi.nodes import Breakpoint
    rng = random.Random('c29' + job['hist'])
    m = Model()
    gone = []                               # keeps ids unique
    sites = [Point(rng.randint(-9, 9), rng.randint(-9, 9), name=i) for i in range(rng.randint(2, 4))]
    verts = [Vertex(rng.randint(-99, 99) / 4, rng.randint(-99, 99) / 4) for _ in range(rng.randint(2, 6))]
    for s in sites:
        m.first[id(s)] = (s, None)
    for v in verts:
        m.conn[id(v)] = (v, [])
    mon.check(all(v.connected_edges == [] for v in verts) and len({id(v.connected_edges) for v in verts}) == len(verts), 'new vertices share their lists of half-edges')
    shape = []

    def connect(e, v):
        v.connected_edges.append(e)
        m.conn[id(v)][1].append(e)

    def new(site, origin=None, twin=None):
        e = HalfEdge(site, twin=twin, origin=origin)
        m.edges.append(e)
        m.site[id(e)], m.origin[id(e)], m.twin[id(e)] = site, origin, twin
        if twin is not None:
            m.twin[id(twin)] = e
            mon.see('paired')
        if id(origin) in m.conn:
            connect(e, origin)
        return e

    def link(a, b):
        # a new link replaces the old ones, as when an edge is put in between
        a.set_next(b)
        mon.see('linked')
        m.next[id(a)] = b
        if b is not None:
            m.prev[id(b)] = a
            m.loose.discard(id(b))
    for s in sites:
        n = rng.choice([1, 2, 3, 4, 6])
        closed = rng.random() < .7
        ring = []
        for _ in range(n):
            e = new(s, rng.choice(verts))
            ring.append(e)
            if rng.random() < .7:
                new(rng.choice([None] + sites), rng.choice(verts + [None]), twin=e)
        for a, b in zip(ring, ring[1:]):
            link(a, b)
        if closed:
            link(ring[-1], ring[0])
        e = rng.choice(ring)
        s.first_edge = e
        m.first[id(s)] = (s, e)
        shape.append((n, closed))
    m.compare(mon, 'at first')
    for step in range(rng.randint(4, 25)):
        op = rng.choice(['delete', 'delete', 'insert', 'twin', 'move', 'origin', 'end', 'link'])
        shape.append(op)
        what = 'after step %d (%s)' % (step, op)
        if op == 'delete' and m.edges:
            e = rng.choice(m.edges)
            n = m.next.get(id(e))
            if n is not None and m.first.get(id(e.incident_point), (0, 0))[1] is e and n.incident_point is not e.incident_point:
                continue
            if id(e) in m.loose:
                continue
            # a list must have it
            o = m.origin.get(id(e))
            if id(o) in m.conn and not any(x is e for x in m.conn[id(o)][1]):
                continue
            # others may still refer to it from an earlier link
            if any(m.next.get(id(x)) is e and m.prev.get(id(e)) is not x or m.prev.get(id(x)) is e and m.next.get(id(e)) is not x
                   for x in m.edges if x is not e):
                continue
            gone.append(m.delete(e, mon))
            # the twin keeps the deleted half-edge until it is deleted itself
        elif op == 'insert' and m.edges:
            a = rng.choice(m.edges)
            b = m.next.get(id(a))
            e = new(a.incident_point, rng.choice(verts))
            link(a, e)
            if b is not None:
                link(e, b)
        elif op == 'end' and m.edges:
            a = rng.choice(m.edges)
            b = m.next.get(id(a))
            if b is not None and m.prev.get(id(b)) is a:
                a.set_next(None)
                m.next[id(a)] = None
                m.loose.add(id(b))
                mon.see('linked')
        elif op == 'link' and m.edges:
            # half-edges of any sites, or of none
            a = rng.choice(m.edges)
            x = rng.choice(m.edges) if rng.random() < .6 else new(rng.choice([None] + sites), rng.choice(verts + [None]))
            b = m.next.get(id(a))
            if b is not None and b is not x and m.prev.get(id(b)) is a:
                m.loose.add(id(b))
            link(a, x)
            mon.see('linked half-edges of different sites', a.incident_point is not x.incident_point)
        elif op == 'twin' and m.edges:
            a = rng.choice(m.edges)
            if m.twin.get(id(a)) is None:
                t = HalfEdge(rng.choice(sites), origin=None)
                m.edges.append(t)
                m.site[id(t)] = t.incident_point
                a.twin = t
                m.twin[id(a)], m.twin[id(t)] = t, a
                mon.see('paired')
            elif rng.random() < .5:
                # another twin, new or not; the old ones are not told
                t = rng.choice(m.edges) if rng.random() < .5 else new(rng.choice(sites), rng.choice(verts))
                if t is a:
                    continue
                a.twin = t
                m.twin[id(a)], m.twin[id(t)] = t, a
                mon.see('paired again')
            elif rng.random() < .3:
                a.twin = None
                m.twin[id(a)] = None
                mon.see('twins taken away')
        elif op == 'move' and m.edges:
            e = rng.choice(m.edges)
            o, v = m.origin.get(id(e)), rng.choice(verts)
            if id(o) in m.conn:
                if not any(x is e for x in m.conn[id(o)][1]):
                    continue
                o.connected_edges.remove(e)
                m.conn[id(o)] = (o, [x for x in m.conn[id(o)][1] if x is not e])
            e.origin = v
            m.origin[id(e)] = v
            connect(e, v)
            mon.see('ends moved')
        elif op == 'origin':
            ends(rng, sites, verts, mon)
        m.compare(mon, what)
    mon.shape(tuple(shape))


def ends(rng, sites, verts, mon):
    """where an end is"""
    from foronoi.graph import HalfEdge, Vertex
    from foronoi.nodes import Breakpoint
    e = HalfEdge(sites[0], origin=rng.choice(verts))
    y = Decimal(-20) - rng.randint(1, 50)
    for args in ((), (y,)):
        o = e.get_origin(*args)
        mon.see('ends at vertices')
        mon.check(o is e.origin, 'the end at the vertex %s is %s', coords(e.origin), o)
    e.origin = Vertex(None, None)
    mon.check(e.get_origin() is None and e.get_origin(y=y) is None, 'an end at a vertex without position is somewhere')
    mon.see('ends nowhere')
    a, b = rng.sample(sites, 2)
    if exy(a) == exy(b):
        return
    p = Breakpoint(breakpoint=(a, b))
    e.origin = p
    mon.check(e.get_origin() is None, 'an end at a breakpoint is somewhere without a sweep line')
    top = Decimal(rng.randint(100, 200))
    o = e.get_origin(y=y, max_y=top)
    mon.see('ends at breakpoints')
    x, yy = float(o.xd), float(o.yd)
    if a.yd == b.yd and b.xd < a.xd:
        mon.check(F(o.yd) == F(top) and abs(F(o.xd) - (fr(a.xd) + fr(b.xd)) / 2) == 0, 'the end of an upward edge is at %s', coords(o))
        return
    tol = 1e-9 * (abs(x) + abs(yy) + 100)
    mon.check(abs(dist((x, yy), xy(a)) - (yy - float(y))) <= tol and abs(dist((x, yy), xy(b)) - (yy - float(y))) <= tol,
              'the end at %s of the breakpoint between %s and %s is not equally far from both and y=%s', coords(o), coords(a), coords(b), y)


def diagram(job, mon):
    """delete half-edges from a real diagram"""
    c = judge(job, mon)
    if not c:
        return
    poly, sites, o = c
    rng = random.Random('c29' + str(job['seed']) + job['gen'])
    v = build(poly, sites)
    m = Model()
    for h in half_edges(v):
        m.edges.append(h)
        m.next[id(h)], m.prev[id(h)], m.twin[id(h)], m.origin[id(h)], m.site[id(h)] = h.next, h.prev, h.twin, h.origin, h.incident_point
        if h.incident_point is None:
            m.loose.add(id(h))
    for x in v.vertices:
        m.conn[id(x)] = (x, list(x.connected_edges))
    for s in v.sites:
        m.first[id(s)] = (s, s.first_edge)
    m.compare(mon, 'at first')
    keep = []
    cand = [h for h in m.edges if h.incident_point is not None]
    rng.shuffle(cand)
    for h in cand[:rng.randint(1, len(cand))]:
        keep.append(m.delete(h, mon))
        mon.see('half-edges of diagrams deleted')
        m.compare(mon, 'after a half-edge was deleted')
    for s in v.sites:
        b = s.borders()
        f = m.first[id(s)][1]
        want = []
        while f is not None and len(want) <= len(keep) + len(m.edges):
            want.append(f)
            f = m.next.get(id(f))
            if f is m.first[id(s)][1]:
                break
        mon.check(len(b) == len(want) and all(p is q for p, q in zip(b, want)), 'after half-edges were deleted, site %s has %d borders instead of %d', s, len(b), len(want))
