"""C09: the beach line is the lower envelope of the parabolas after every step."""
from decimal import Decimal
from lib.diagram import *
from lib import steps

RULE = ('Layout generators and fixed degenerate layouts; after every step of the sweep an observer compares the arcs with the '
        'lower envelope of the parabolas of all processed sites, computed with 60 digits. Distinct: by the sequence of sites on '
        'the beach line (relabelled) and kind of step.')
ASSUMPTIONS = ['sites are distinct and inside or on a convex polygon', 'arcs narrower than rounding are not judged',
               'layouts whose circle events are too far away for the available digits are skipped']
MUST_SEE = ['steps', 'arcs compared with the envelope', 'breakpoints']


def jobs(seed, tier):
    return fixed_jobs() + gen_jobs(seed, 7 if tier == 'quick' else 110) + thousand_jobs(seed, tier)


class Beach:
    def __init__(self, mon, o):
        self.mon, self.o = mon, o
        self.done = []
        self.ids = set()
        self.tol = 1e-7 * o.scale
        self.count = 0

    def step(self, a):
        mon, tol = self.mon, self.tol
        ev = a.event
        if not steps.is_circle(ev):
            self.done.append(ev.point)
        n = len(self.done)
        # in large diagrams some steps in a row every now and then
        self.count += 1
        if len(self.o.sites) > 300 and self.count % (len(self.o.sites) // 8) > 5:
            return
        L = steps.leaves(a.status_tree, 20 * n + 20)
        l = a.sweep_line
        mon.see('steps')
        mon.check(abs(l - ev.yd) <= Decimal(1e-9 * self.o.scale), 'the sweep line is at %s while the event is at %s', l, ev.yd)
        S = [x.data.origin for x in L]
        ix = {id(p): i for i, p in enumerate(self.done)}
        if any(id(p) not in ix for p in S):
            mon.bad('an arc belongs to a site that is not processed yet')
            return
        seq = [ix[id(p)] for p in S]
        mon.shape(steps.is_circle(ev), tuple(seq))
        mon.check(all(seq[k] != seq[k + 1] for k in range(len(seq) - 1)), 'two neighbouring arcs have the same site')
        P = [(p.xd, p.yd) for p in S]
        xs = []
        for p, q in zip(P, P[1:]):
            x = steps.breakpoint_x(p, q, l)
            if x is None:
                mon.bad('at y=%s the arcs of %s and %s are neighbours in the wrong order' % (l, p, q))
                return
            xs.append(x)
        fx = [float(x) for x in xs]
        for k in range(len(xs) - 1):
            if fx[k] > fx[k + 1] + tol + 1e-9 * max(abs(fx[k]), abs(fx[k + 1])):
                mon.bad('at y=%s the breakpoints of the arc of %s are in the wrong order: %r, %r' % (l, P[k + 1], fx[k], fx[k + 1]))
                return
        # sites that the sweep line just reached have an arc (a ray)
        for p in self.done:
            if p.yd == l:
                mon.check(any(q is p for q in S), 'the site %s on the sweep line has no arc', coords(p))
        # positions of the breakpoints as the algorithm computes them
        for node, _ in steps.in_order(a.status_tree, 40 * n + 40):
            if node.left is None and node.right is None:
                continue
            left, right = node.data.breakpoint
            x = steps.breakpoint_x((left.xd, left.yd), (right.xd, right.yd), l)
            if x is None:
                continue
            got = node.data.get_intersection(l)
            mon.see('breakpoints')
            x = float(x)
            if not abs(float(got.xd) - x) <= tol + 1e-9 * abs(x):
                mon.bad('at y=%s the breakpoint of %s and %s is at x=%s instead of %r' % (l, coords(left), coords(right), got.xd, x))
            elif got.yd.is_finite() and float(min(left.yd - l, right.yd - l)) > 1e-9 * self.o.scale:
                # equally far from both sites and the sweep line
                dy = float(got.yd - l)
                for s in (left, right):
                    d = math.hypot(float(got.xd - s.xd), float(got.yd - s.yd))
                    mon.check(abs(d - dy) <= tol + 1e-7 * abs(dy),
                              'at y=%s the breakpoint of %s and %s is at (%s, %s)', l, coords(left), coords(right), got.xd, got.yd)
        # envelope: over the extent of each arc no other parabola is lower
        # (coordinates from a processed site: differences of heights above a sweep line far away would lose the digits)
        ox, oy = self.done[0].xd, self.done[0].yd
        cx = float(ox)
        big = 20 * self.o.scale
        sx = np.array([float(p.xd - ox) for p in self.done])
        sy = np.array([float(p.yd - oy) for p in self.done])
        d = np.array([float(p.yd - l) for p in self.done])
        if (d < -tol).any():
            mon.bad('a processed site is below the sweep line at y=%s' % l)
            return
        bounds = [-big] + [float(x - ox) for x in xs] + [big]
        small = 1e-9 * self.o.scale
        for k in range(len(S)):
            i = seq[k]
            lo, hi = max(bounds[k], -big), min(bounds[k + 1], big)
            if not hi - lo > 1e-6 * tol or d[i] <= small:
                mon.see('arcs too narrow to judge')
                continue
            D = d[i]
            # f_s - f_i = A x^2 + B x + C; lowest inside (lo, hi) at an end or at the extremum
            with np.errstate(all='ignore'):
                A = 1 / (2 * d) - 1 / (2 * D)
                B = -sx / d + sx[i] / D
                xv = -B / (2 * A)
            xv = np.where(np.isfinite(xv), np.clip(xv, lo, hi), lo)
            for X in (np.full(n, lo), np.full(n, hi), xv):
                y = (X - sx[i]) ** 2 / (2 * D) + D / 2            # height above the sweep line
                # distance of the point on arc i to the bisector of s and i, positive on the side of i
                ddx, ddy = sx[i] - sx, sy[i] - sy
                dd = np.hypot(ddx, ddy)
                num = ((X - sx) ** 2 - (X - sx[i]) ** 2) + ((y - d) ** 2 - (y - D) ** 2)
                num = ddx * (2 * X - sx - sx[i]) + ddy * (2 * y - d - D)
                with np.errstate(all='ignore'):
                    delta = num / (2 * dd)
                delta[i] = 0
                bad = delta < -(tol + 1e-9 * (abs(X) + abs(y)))
                if bad.any():
                    s = int(bad.argmax())
                    mon.bad('at y=%s the beach line has the arc of %s at x=%r, but the parabola of %s is lower there' % (
                        l, coords(S[k]), float(X[s]) + cx, coords(self.done[s])))
                    return
            mon.see('arcs compared with the envelope')


def run(job, mon):
    c = judge(job, mon)
    if not c:
        return
    poly, sites, o = c
    b = Beach(mon, o)
    v = build(poly, sites, observers=[steps.make_monitor(b.step)])
    mon.check(len(b.done) == len(sites), '%d sites were processed instead of %d', len(b.done), len(sites))
