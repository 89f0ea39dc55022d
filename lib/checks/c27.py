"""C27: after every event, the part of the diagram that the sweep has passed is final."""
import random
from lib.diagram import *
from lib import steps
from lib.oracle import hull, cross

RULE = ('Layout generators and fixed degenerate layouts; after every event an observer compares the vertices and edges that exist by '
        'then with those of the exact unclipped diagram whose events are above the sweep line, and follows all links between the '
        'half-edges; the positions of open ends are compared with the distances to all sites, also those the sweep has not reached. '
        'Distinct: by the numbers of cells around the vertices so far.')
ASSUMPTIONS = ['sites are distinct', 'events within 1e-38 of the size of their circle from the sweep line count as either passed or not']
MUST_SEE = ['steps', 'vertices passed', 'vertices not passed yet', 'edges started', 'edges not started yet', 'open ends', 'fixed ends', 'links',
            'sweeps finished', 'vertices of four or more cells', 'edges that start at a site event', 'edges that start at a vertex']
LIMIT = 90


def jobs(seed, tier):
    return fixed_jobs() + gen_jobs(seed, 8 if tier == 'quick' else 200) + thousand_jobs(seed, tier)


def dec(f):
    return Decimal(f.numerator) / Decimal(f.denominator)


class Plan:
    """When everything of the exact unclipped diagram comes into being."""

    def __init__(self, sites):
        S = self.S = [(fr(x), fr(y)) for x, y in sites]
        xs, ys = [p[0] for p in S], [p[1] for p in S]
        size = max(max(xs) - min(xs), max(ys) - min(ys)) or F(1)
        self.size = float(size)
        cx, cy = (max(xs) + min(xs)) / 2, (max(ys) + min(ys)) / 2
        K = size * 10 ** 40
        B = [(cx - K, cy - K), (cx + K, cy - K), (cx + K, cy + K), (cx - K, cy + K)]
        # the cells, by clipping; Oracle itself looks at floats of the polygon too much for such a box
        from lib.oracle import clip
        n = len(S)
        self.at, adj = {}, {}
        for i in range(n):
            P = [(p, ('b', k)) for k, p in enumerate(B)]
            x, y = S[i]
            rad = None
            for j in sorted((j for j in range(n) if j != i), key=lambda j: (S[j][0] - x) ** 2 + (S[j][1] - y) ** 2):
                a, b = S[j]
                if n > 200:
                    # the rest is too far away to cut anything off
                    if rad is None or rad[0] is not P:
                        rad = P, max((p[0] - x) ** 2 + (p[1] - y) ** 2 for p, _ in P)
                    if (a - x) ** 2 + (b - y) ** 2 > 4 * rad[1]:
                        break
                P = clip(P, 2 * (a - x), 2 * (b - y), a * a + b * b - x * x - y * y, ('s', j))
            P = [P[k] for k in range(len(P)) if P[k][0] != P[(k + 1) % len(P)][0]]
            for k, (p, lab) in enumerate(P):
                q = P[(k + 1) % len(P)][0]
                self.at.setdefault(p, set()).add(i)
                if lab[0] == 's':
                    adj.setdefault(frozenset((i, lab[1])), (p, q))

        def border(p):
            return abs(p[0] - cx) == K or abs(p[1] - cy) == K
        self.at = {p: c for p, c in self.at.items() if len(c) >= 3 and not border(p)}
        # all vertices are in the box if their number is right
        h = hull(S, keep_collinear=True)
        flat = all(cross(h[0], h[-1], p) == 0 for p in S)
        self.complete = sum(len(c) - 2 for c in self.at.values()) == (0 if flat else 2 * n - 2 - len(h))
        self.bottom, self.eps = {}, {}
        with steps_context():
            for p, c in self.at.items():
                s = S[next(iter(c))]
                r = dec((p[0] - s[0]) ** 2 + (p[1] - s[1]) ** 2).sqrt()
                self.bottom[p] = dec(p[1]) - r
                self.eps[p] = (r + abs(dec(p[0])) + abs(dec(p[1])) + dec(size)) * Decimal('1e-38')
        self.start = {}
        for pair, (p, q) in adj.items():
            i, j = pair
            if S[i][1] < S[j][1]:
                i, j = j, i
            (hx, hy), (lx, ly) = S[i], S[j]
            ends = [e for e in (p, q) if not border(e)]
            at_site = False
            if hy == ly:
                top = max((p, q), key=lambda e: e[1])
                at_site = border(top)
                ends = [top]
            else:
                fy = ((lx - hx) ** 2 + hy * hy - ly * ly) / (2 * (hy - ly))
                # the bisector is not upright, so x tells where the foot is
                lo, hi = sorted((p, q))
                at_site = lo[0] <= lx <= hi[0] or lx < lo[0] and border(lo) or lx > hi[0] and border(hi)
                ends = [hi if lx > hi[0] else lo]
            if at_site:
                self.start[pair] = (dec(ly), (dec(size) + abs(dec(ly))) * Decimal('1e-38'), 'site')
            else:
                self.start[pair] = (self.bottom[ends[0]], self.eps[ends[0]], 'vertex')
        self.F = np.array([[float(x - cx), float(y - cy)] for x, y in S])
        self.c = (cx, cy)
        self.points = list(self.at)
        self.near = Nearest([[float(p[0] - cx), float(p[1] - cy)] for p in self.points])
        # pairs that meet in a vertex of four or more cells can have an edge without length
        self.touch = {}
        for p, c in self.at.items():
            if len(c) > 3:
                for i in c:
                    for j in c:
                        if i < j:
                            self.touch.setdefault(frozenset((i, j)), []).append(p)


def steps_context():
    import decimal
    c = decimal.getcontext().copy()
    c.prec = 90
    return decimal.localcontext(c)


class Watch:
    def __init__(self, mon, plan, rng):
        self.mon, self.plan, self.rng, self.n = mon, plan, rng, 0
        self.matched = {}                # id of a vertex -> (vertex, exact position)

    def match(self, v):
        hit = self.matched.get(id(v))
        if hit and hit[0] is v:
            return hit[1]
        pl = self.plan
        x, y = exy(v)
        best = None
        if pl.points:
            f = (float(x - pl.c[0]), float(y - pl.c[1]))
            d = np.hypot(pl.near.a[:, 0] - f[0], pl.near.a[:, 1] - f[1])
            for k in np.nonzero(d <= d.min() + 1e-9 * (pl.size + abs(f[0]) + abs(f[1])))[0]:
                p = pl.points[int(k)]
                e = F(pl.eps[p])
                m = max(abs(p[0] - x), abs(p[1] - y))
                if m <= e and (best is None or m < least):
                    best, least = p, m
        self.matched[id(v)] = (v, best)
        return best

    def step(self, a):
        self.n += 1
        # in large diagrams some steps in a row every now and then
        m = len(self.plan.S)
        if m > 300 and (self.n + m) % (m // 6) > 3:
            return
        self.mon.see('steps')
        self.look(a, a.sweep_line, 'after event %d (y=%s)' % (self.n, a.sweep_line))

    def sweep(self, a):
        self.mon.see('sweeps finished')
        self.look(a, Decimal('-Infinity'), 'after the sweep')

    def look(self, a, l, when):
        mon, pl = self.mon, self.plan
        from foronoi.graph import Vertex
        from foronoi.nodes import Breakpoint
        limit = 6 * len(pl.S) + 6
        with steps_context():
            found = {}
            V = a.vertices
            ids = set()
            for v in V:
                ids.add(id(v))
                p = self.match(v)
                if not mon.check(p is not None, '%s, the vertex %s is no vertex of the diagram', when, coords(v)):
                    raise Violation('see above')
                mon.check(pl.bottom[p] >= l - pl.eps[p], '%s, there is already a vertex at %s, whose circle ends at y=%s', when, coords(v), pl.bottom[p])
                found[p] = found.get(p, 0) + 1
            for p, c in pl.at.items():
                if pl.bottom[p] > l + pl.eps[p]:
                    mon.see('vertices passed')
                    mon.see('vertices of four or more cells', len(c) > 3)
                    mon.check(found.get(p, 0) == len(c) - 2, '%s, there are %d vertices at (%s, %s), where %d cells meet', when, found.get(p, 0),
                              float(p[0]), float(p[1]), len(c))
                else:
                    mon.see('vertices not passed yet')
                    mon.check(found.get(p, 0) <= len(c) - 2, '%s, there are %d vertices at (%s, %s), where %d cells meet', when, found.get(p, 0),
                              float(p[0]), float(p[1]), len(c))
            # edges
            ix = {id(s): i for i, s in enumerate(a.sites)}
            E = a.edges
            if not mon.check(len(E) <= limit, '%s, there are %d edges', when, len(E)):
                raise Violation('see above')
            have = {}
            half = []
            for e in E:
                t = e.twin
                if not mon.check(t is not None and t.twin is e and t is not e, '%s, the twin of %s does not point back', when, e):
                    raise Violation('see above')
                i, j = ix.get(id(e.incident_point)), ix.get(id(t.incident_point))
                if not mon.check(i is not None and j is not None and i != j, '%s, the edge %s is not between two sites', when, e):
                    raise Violation('see above')
                have.setdefault(frozenset((i, j)), []).append(e)
                half += [e, t]
            for pair, (y, eps, kind) in pl.start.items():
                if y > l + eps:
                    mon.see('edges started')
                    mon.see('edges that start at a site event' if kind == 'site' else 'edges that start at a vertex')
                    mon.check(pair in have, '%s, there is no edge between the sites %s, which starts at y=%s', when, sorted(pair), y)
                else:
                    mon.see('edges not started yet')
            for pair, es in have.items():
                touch = [p for p in pl.touch.get(pair, ()) if pl.bottom[p] >= l - pl.eps[p]]
                if pair in pl.start:
                    y, eps, kind = pl.start[pair]
                    mon.check(y >= l - eps or touch, '%s, there is already an edge between the sites %s, which starts at y=%s', when, sorted(pair), y)
                    mon.check(len(es) == 1 or touch, '%s, there are %d edges between the sites %s', when, len(es), sorted(pair))
                else:
                    mon.check(bool(touch), '%s, there is an edge between the sites %s, which are no neighbours', when, sorted(pair))
            # links
            out = {}
            known = {id(h) for h in half}
            for h in half:
                if isinstance(h.origin, Vertex):
                    out.setdefault(id(h.origin), []).append(h)
            for v in V:
                hs = out.get(id(v), [])
                mon.check(len(hs) == 3 and sorted(map(id, hs)) == sorted(map(id, v.connected_edges)),
                          '%s, %d half-edges leave the vertex %s, which lists %d', when, len(hs), coords(v), len(v.connected_edges))
            for h in half:
                o = h.origin
                if isinstance(o, Vertex):
                    mon.see('fixed ends')
                    if not mon.check(id(o) in ids, '%s, %s leaves a vertex %s that is not listed', when, h, coords(o)):
                        continue
                    cells = pl.at[self.match(o)]
                    mon.check({ix[id(h.incident_point)], ix[id(h.twin.incident_point)]} <= cells, '%s, %s leaves the vertex %s of other cells', when, h, coords(o))
                    p = h.prev
                    mon.see('links')
                    mon.check(p is not None and id(p) in known and p.next is h and p.incident_point is h.incident_point and p.twin.origin is o,
                              '%s, the half-edge before %s, which leaves %s, is wrong: %s', when, h, coords(o), p)
                    q = h.twin.next
                    mon.check(q is not None and id(q) in known and q.prev is h.twin and q.incident_point is h.twin.incident_point and q.origin is o,
                              '%s, the half-edge after %s, which ends in %s, is wrong: %s', when, h.twin, coords(o), q)
                else:
                    mon.see('open ends')
                    if not mon.check(isinstance(o, Breakpoint), '%s, the origin of %s is %s', when, h, o):
                        continue
                    mon.check({id(s) for s in o.breakpoint} == {id(h.incident_point), id(h.twin.incident_point)},
                              '%s, the open end of %s is a breakpoint of other sites', when, h)
                    mon.check(h.prev is None and h.twin.next is None, '%s, there is a half-edge before the open end of %s', when, h)
        if l.is_finite() and (self.n < 4 or self.rng.random() < .3):
            self.places(a, half, l, when)
        mon.shape(tuple(sorted(len(pl.at[p]) for p in found)), len(E))
        if mon.violations:
            raise Violation('see above')

    def places(self, a, half, l, when):
        """open ends are as far from their sites as from the sweep line, and no site is closer"""
        mon, pl = self.mon, self.plan
        from foronoi.graph import Vertex
        ix = {id(s): i for i, s in enumerate(a.sites)}
        fl = float(F(l) - pl.c[1])
        for h in half:
            ends = []
            for g in (h, h.twin):
                q = g.get_origin(y=l)
                if q is None or not (q.xd.is_finite() and q.yd.is_finite()):
                    ends.append(None)
                    continue
                f = (float(F(q.xd) - pl.c[0]), float(F(q.yd) - pl.c[1]))
                ends.append(f)
                if g is not h or isinstance(g.origin, Vertex):
                    continue
                mon.see('places of open ends')
                d = np.hypot(pl.F[:, 0] - f[0], pl.F[:, 1] - f[1])
                i, j = ix[id(h.incident_point)], ix[id(h.twin.incident_point)]
                tol = 1e-9 * (abs(f[0]) + abs(f[1]) + pl.size)
                mon.check(abs(d[i] - d[j]) <= tol and abs(d[i] - (f[1] - fl)) <= tol and d.min() >= d[i] - tol,
                          '%s, the open end of %s at %s is not equally far from its sites and the sweep line, or closer to another site', when, h, coords(q))
            if ends[0] and ends[1]:
                p = pl.F[ix[id(h.incident_point)]]
                (x, y), (u, v) = ends
                L = math.hypot(u - x, v - y)
                tol = 1e-9 * (abs(x) + abs(y) + abs(u) + abs(v) + pl.size)
                if L > 1e3 * tol:
                    side = ((u - x) * (p[1] - y) - (v - y) * (p[0] - x)) / L
                    mon.see('directions')
                    mon.check(side <= tol, '%s, %s runs the wrong way around its site', when, h)


def run(job, mon):
    poly, sites = expand(job)
    with steps_context():
        plan = Plan(sites)
    if not plan.complete:
        mon.skip('a vertex too far away')
        return
    w = Watch(mon, plan, random.Random(str(job.get('seed'))))

    def stop(a):
        w.sweep(a)
        raise steps.SweepDone()
    try:
        build(poly, sites, observers=[steps.make_monitor(w.step, sweep=stop)])
    except steps.SweepDone:
        return
    mon.bad('the sweep was never announced as finished')
