"""C11: events are processed in sweep order, and stale circle events never are."""
import random
from decimal import Decimal
from lib.diagram import *
from lib import steps

RULE = ('Layout generators and fixed degenerate layouts; an observer records the trace of events and compares it with the order '
        'of the sites, the empty-circle property and the beach line before and after every event; and random events are compared and queued. Distinct: by the sequence of '
        'kinds of event with the arcs involved.')
ASSUMPTIONS = ['sites are distinct and inside or on a convex polygon',
               'positions of circle events are computed with about 28 digits, so that they are compared up to rounding']
MUST_SEE = ['site events', 'circle events', 'pending circle events compared', 'converging arcs with a pending event',
            'events at the same y', 'comparisons of events', 'comparisons of events hardly apart', 'comparisons of events at the same place', 'events taken from a queue']


def jobs(seed, tier):
    q = tier == 'quick'
    return fixed_jobs() + gen_jobs(seed, 12 if q else 250) + thousand_jobs(seed, tier) + [{'order': '%s.%s' % (seed, k)} for k in range(40 if q else 1000)]


def order(job, mon):
    """Which of two events comes first, and a queue of events that are put and taken in any order."""
    from queue import PriorityQueue
    from foronoi.events import CircleEvent, SiteEvent
    from foronoi.graph import Coordinate, Point
    rng = random.Random('order' + job['order'])
    unit = Decimal(10) ** rng.choice([0, 0, 0, -9, -25, 6])
    grid = rng.choice([2, 3, 6, 1000])

    # sites far away from zero in units of their last digit, closer than floats and the usual number of digits tell apart
    far = Decimal(rng.choice([5, -3, 1000])) if rng.random() < .3 else None

    def num():
        return rng.randint(-grid, grid) * unit
    if far:
        unit = Decimal(10) ** -rng.randint(18, 45)
        mon.see('comparisons of events hardly apart')
    events, where = [], []
    for _ in range(rng.randint(2, 30)):
        x, y = num(), num()
        if far:
            x, y = (far if rng.random() < .3 else steps.CTX.add(far, x)), steps.CTX.add(far, y)
        if far or rng.random() < .5:
            e = SiteEvent(point=Point(x, y))
        else:
            r = abs(num()) + unit
            e = CircleEvent(center=Coordinate(x, y + r), radius=r, arc_node=None, point_triple=None, arc_triple=None)
        if any(w[:2] == (x, y) and not (w[2] or steps.is_circle(e)) for w in where):
            continue
        events.append(e)
        where.append((x, y, steps.is_circle(e)))
        mon.check((e.xd, e.yd) == (x, y), 'an event at (%s, %s) is at (%s, %s)', x, y, e.xd, e.yd)
    key = [(y.copy_negate(), x, not c) for x, y, c in where]
    for i, a in enumerate(events):
        mon.check(not a == None and a != None, 'an event equals nothing')        # noqa: E711
        for j, b in enumerate(events):
            mon.check(bool(a < b) == (key[i] < key[j]), 'the %s at %s %s the %s at %s', 'circle event' if where[i][2] else 'site',
                      where[i][:2], 'comes before' if a < b else 'does not come before', 'circle event' if where[j][2] else 'site', where[j][:2])
            same = where[i][:2] == where[j][:2]
            mon.check(bool(a == b) == same and bool(a != b) != same, 'events at %s and %s are %s', where[i][:2], where[j][:2],
                      'equal' if a == b else 'different')
            mon.see('comparisons of events')
            mon.see('comparisons of events at the same place', same and i != j)
    queue, waiting = PriorityQueue(), []
    todo = list(range(len(events)))
    rng.shuffle(todo)
    while todo or waiting:
        if todo and (not waiting or rng.random() < .6):
            i = todo.pop()
            queue.put(events[i])
            waiting.append(i)
        else:
            e = queue.get()
            i = next(k for k, x in enumerate(events) if x is e)
            mon.check(key[i] == min(key[k] for k in waiting), 'the event at %s leaves the queue too early', where[i])
            waiting.remove(i)
            mon.see('events taken from a queue')
    mon.shape('order', grid, len(events))


def circle(a, b, c):
    """Exact centre and float radius of the circle through three points (Fractions); None if collinear."""
    ax, ay = a
    bx, by, cx, cy = b[0] - ax, b[1] - ay, c[0] - ax, c[1] - ay
    g = 2 * (bx * cy - by * cx)
    if g == 0:
        return None
    e, f = bx * bx + by * by, cx * cx + cy * cy
    x, y = (cy * e - by * f) / g, (bx * f - cx * e) / g
    return (ax + x, ay + y), math.sqrt(x * x + y * y)


class Trace:
    def __init__(self, mon, sites, scale, maxabs):
        self.mon = mon
        self.scale = scale
        self.sites = sites
        self.n = len(sites)
        self.want = sorted(range(self.n), key=lambda i: (-sites[i][1], sites[i][0]))
        self.fs = np.array([[float(x), float(y)] for x, y in sites])
        self.k = 0                   # sites processed
        self.last = None
        self.before = []             # origins on the beach line before the event
        self.trace = []
        self.handled = {}          # keeps the events alive, so that ids are unique
        self.tol = 1e-9 * (scale + maxabs)

    def step(self, a):
        mon = self.mon
        ev = a.event
        if ev is None:
            mon.bad('a step is finished without an event')
            return
        y, x = ev.yd, ev.xd
        slack = self.tol
        circ = steps.is_circle(ev)
        if circ:
            slack += 1e-9 * float(ev.radius)
        if self.last is not None:
            ly, lx = self.last
            if y == ly:
                mon.see('events at the same y')
                mon.check(float(x - lx) >= -slack, 'the event at (%s, %s) comes after the one at (%s, %s)', x, y, lx, ly)
            mon.check(float(y - ly) <= slack, 'the event at y=%s comes after the one at y=%s', y, ly)
        self.last = (y, x)
        mon.check(a.sweep_line == y, 'the sweep line is at %s at the event at %s', a.sweep_line, y)
        L = steps.leaves(a.status_tree, 20 * self.n + 20)
        origins = [n.data.origin for n in L]
        if circ:
            mon.see('circle events')
            self.trace.append(tuple(p.name for p in ev.point_triple))
            mon.check(id(ev) not in self.handled, 'a circle event is handled twice')
            self.handled[id(ev)] = ev
            mon.check(ev.is_valid, 'a circle event that has been removed is handled')
            p, q, r = ev.point_triple
            mon.check(any(self.before[k] is p and self.before[k + 1] is q and self.before[k + 2] is r
                          for k in range(len(self.before) - 2)),
                      'the sites %s of a circle event are not consecutive on the beach line %s', ev.point_triple, self.before)
            c = circle(*[exy(s) for s in ev.point_triple])
            if c is None:
                mon.bad('a circle event has collinear sites %s' % (ev.point_triple,))
                return
            (cx, cy), rad = c
            cx, cy = float(cx), float(cy)
            t = self.tol + 1e-9 * rad
            mon.check(abs(float(ev.center.xd) - cx) <= t and abs(float(ev.center.yd) - cy) <= t and abs(float(ev.radius) - rad) <= t,
                      'the circle event of %s has the center (%s, %s) and radius %s instead of (%r, %r) and %r',
                      ev.point_triple, ev.center.xd, ev.center.yd, ev.radius, cx, cy, rad)
            d = np.hypot(self.fs[:, 0] - cx, self.fs[:, 1] - cy)
            mon.check(d.min() >= rad - t, 'site %d is inside the circle of the event of %s', int(d.argmin()), ev.point_triple)
            # exactly the middle arc has gone
            mon.check(len(origins) == len(self.before) - 1 and any(
                self.before[k] is q and self.before[:k] + self.before[k + 1:] == origins for k in range(len(self.before))),
                'the circle event of %s changes the beach line from %s to %s', ev.point_triple, self.before, origins)
        else:
            mon.see('site events')
            s = ev.point
            self.trace.append(0)
            if self.k >= self.n:
                mon.bad('there are more site events than sites')
                return
            w = self.sites[self.want[self.k]]
            mon.check(exy(s) == w, 'site event %d is at %s instead of (%s, %s)', self.k, coords(s), float(w[0]), float(w[1]))
            mon.check(s is a.sites[self.want[self.k]], 'site event %d has a point that is not the site', self.k)
            self.k += 1
            # one arc is split by the new one, or the new one is added at the end of the first row
            n = len(self.before)
            ok = n == 0 and len(origins) == 1 or any(
                origins == self.before[:k + 1] + [s] + self.before[k:] for k in range(n)) or \
                (n > 0 and origins == self.before + [s] and all(b.yd == s.yd for b in self.before))
            mon.check(ok, 'the site event at %s changes the beach line from %s to %s', coords(s), self.before, origins)
        self.before = origins
        self.pending(a, L)

    def pending(self, a, L):
        mon = self.mon
        queue = [e for e in a.event_queue.queue if steps.is_circle(e) and e.is_valid]
        own = {}
        for k, n in enumerate(L):
            e = n.data.circle_event
            if e is None or not e.is_valid:
                continue
            mon.check(id(e) not in own, 'two arcs refer to the same circle event')
            own[id(e)] = e
            if 0 < k < len(L) - 1:
                t = [L[k - 1].data.origin, n.data.origin, L[k + 1].data.origin]
                mon.check(all(p is q for p, q in zip(t, e.point_triple)),
                          'at y=%s the circle event of an arc has the sites %s instead of %s', a.sweep_line, e.point_triple, t)
                mon.check(e.arc_pointer is n, 'the circle event of an arc points to another arc')
            else:
                mon.bad('at y=%s the first or last arc has a circle event' % a.sweep_line)
            mon.see('pending circle events compared')
        mon.check(len(queue) == len({id(e) for e in queue}), 'a circle event is pending twice')
        if {id(e) for e in queue} != set(own):
            mon.bad('at y=%s there are %d valid circle events pending, but the arcs refer to %d' % (a.sweep_line, len(queue), len(own)))
        # converging neighbours have an event (of their own, or one at the same place)
        places = [(float(e.xd), float(e.yd)) for e in queue]
        for k in range(1, len(L) - 1):
            p, q, r = (L[j].data.origin for j in (k - 1, k, k + 1))
            if p is r:
                continue
            e = L[k].data.circle_event
            if e is not None and e.is_valid:
                mon.see('converging arcs with a pending event')
                continue
            (ax, ay), (bx, by), (cx, cy) = p.xy, q.xy, r.xy
            cr = (bx - ax) * (cy - ay) - (by - ay) * (cx - ax)
            if cr >= -1e-7 * math.hypot(bx - ax, by - ay) * math.hypot(cx - ax, cy - ay):
                continue
            # (a circle with a site inside will be found to be a false alarm, so that its event may be left out)
            (x, y), rad = circle(exy(p), exy(q), exy(r))
            px, py = exy(p)
            r2 = (x - px) ** 2 + (y - py) ** 2
            if any((x - u) ** 2 + (y - w) ** 2 < r2 for u, w in self.sites):
                mon.see('converging arcs whose circle is not empty')
                continue
            x, y = float(x), float(y) - rad
            t = self.tol + 1e-9 * rad
            mon.see('converging arcs that share an event')
            mon.check(any(abs(x - u) <= t and abs(y - v) <= t for u, v in places),
                      'at y=%s the arcs of %s, %s, %s converge, but no circle event is pending for their empty circle', a.sweep_line, p, q, r)


def run(job, mon):
    if 'order' in job:
        return order(job, mon)
    poly, sites = expand(job)
    H = [(fr(x), fr(y)) for x, y in poly]
    xs, ys = [float(p[0]) for p in H], [float(p[1]) for p in H]
    S = [(fr(x), fr(y)) for x, y in sites]
    t = Trace(mon, S, max(xs) - min(xs) + max(ys) - min(ys), max(map(abs, xs + ys)))
    steps.sweep_only(poly, sites, t.step)
    mon.see('diagrams')
    mon.check(t.k == len(sites), '%d of %d sites were processed', t.k, len(sites))
    mon.shape(tuple(t.trace))
