"""C19: the visualizer draws what is in the diagram, and changes nothing."""
import copy
import random
from lib.diagram import *
from lib import steps
from lib.checks.c13 import full

RULE = ('Layout generators and bounding circles; at random steps of the construction, before clipping and afterwards, the plot '
        'methods are called in random order with random options (explicit, empty and default elements, sweep positions, '
        'events, labels, colours, offsets, sizes) and what each of them adds to the matplotlib axes is compared with geometry; '
        'plot_all is compared with the sum of its parts. Distinct: by method, options and state.')
ASSUMPTIONS = ['no Voronoi vertex on the border of the polygon',
               'positions more than 1000 times the size of the canvas away are not compared']
METHODS = ['sites', 'vertices', 'edges', 'border_to_site', 'polygon', 'outgoing_edges', 'sweep_line', 'event', 'arcs', 'all',
           'limits']
MUST_SEE = ['plot ' + m for m in METHODS] + ['segments', 'labels', 'arrows', 'circles', 'triangles', 'arc labels', 'beach lines',
                                              'explicit empty lists', 'states during construction', 'states before clipping',
                                              'states when finished', 'circle polygons', 'moving ends', 'invalid circles',
                                              'sweep line at zero', 'flat circles', 'figures rendered', 'figures of observers']
KINDS = ['box', 'conv', 'intgrid', 'samey', 'few', 'tri', 'grid', 'edgecluster', 'boxneg', 'onborder', 'collinear', 'fewlevel',
         'mirror', 'circle', 'boxint', 'boxcen', 'tiny', 'huge', 'boxfar', 'toprow', 'hex', 'floatline', 'floatrow', 'decrows']


def jobs(seed, tier):
    q = tier == 'quick'
    return gen_jobs(seed, 6 if q else 90, KINDS) + [dict(disc='%s.%s' % (seed, k)) for k in range(10 if q else 150)]


class Drawn:
    """What has been added to the axes, read from the artists."""

    def __init__(self, artists):
        from matplotlib.lines import Line2D
        from matplotlib.collections import LineCollection, PathCollection
        from matplotlib.text import Text, Annotation
        from matplotlib import patches
        self.points, self.segments, self.curves, self.texts, self.arrows = [], [], [], [], []
        self.circles, self.polygons, self.vlines = [], [], []
        self.unknown = []
        for a in artists:
            if isinstance(a, Line2D):
                xy = np.array([[float(p) for p in np.atleast_1d(a.get_xdata(orig=True))],
                               [float(p) for p in np.atleast_1d(a.get_ydata(orig=True))]]).T
                style = (a.get_linestyle(), rgb(a.get_color()))
                if a.get_transform() != a.axes.transData:
                    self.vlines.append((xy, style))
                elif len(xy) == 2:
                    self.segments.append((tuple(xy[0]), tuple(xy[1]), style))
                else:
                    self.curves.append((xy, style))
            elif isinstance(a, LineCollection):
                for s in a.get_segments():
                    self.segments.append((tuple(s[0]), tuple(s[-1]), ('-', None)))
            elif isinstance(a, PathCollection):
                self.points.append((np.array(a.get_offsets(), float), a.get_zorder(),
                                    rgb(a.get_facecolor()[0]) if len(a.get_facecolor()) else None))
            elif isinstance(a, Annotation) and getattr(a, 'arrowprops', None):
                self.arrows.append((fl(a.xyann), fl(a.xy)))
            elif isinstance(a, Annotation):
                self.texts.append((fl(a.xyann), a.get_text()))
            elif isinstance(a, Text):
                x, y = a.get_position()
                self.texts.append(((float(x), float(y)), a.get_text()))
            elif isinstance(a, patches.Circle):
                self.circles.append((fl(a.center), float(a.width) / 2, rgb(a.get_edgecolor()), a.get_fill()))
            elif isinstance(a, patches.Polygon):
                self.polygons.append(([tuple(map(float, p)) for p in a.get_xy()], a.get_fill()))
            else:
                self.unknown.append(a)

    def empty(self, *but):
        return [k for k in ('points', 'segments', 'curves', 'texts', 'arrows', 'circles', 'polygons', 'vlines', 'unknown')
                if k not in but and getattr(self, k)]

    def summary(self):
        """Everything, rounded and in no particular order, for comparing two pictures."""
        def r(x):
            if isinstance(x, np.ndarray):
                return tuple(r(v) for v in x.tolist())
            if isinstance(x, (tuple, list)):
                return tuple(r(v) for v in x)
            if isinstance(x, float):
                return '%.9g' % x
            return x
        # numpy curves: keep a few samples
        out = {k: sorted(map(repr, (r(e) for e in getattr(self, k)))) for k in
               ('points', 'segments', 'texts', 'arrows', 'circles', 'polygons', 'vlines')}
        out['curves'] = sorted(repr((r(c[0][::97]), r(c[1]))) for c in self.curves)
        return out


def rgb(c):
    from matplotlib.colors import to_hex
    try:
        return to_hex(c)
    except ValueError:
        return None


def fl(p):
    return (float(p[0]), float(p[1]))


def close(a, b, tol):
    return abs(a[0] - b[0]) <= tol and abs(a[1] - b[1]) <= tol


def same_multiset(got, want, tol, mon, what):
    """Points (or tuples of points flattened) of two lists, matched up to tol."""
    if len(got) != len(want):
        mon.bad('%s: %d are drawn instead of %d' % (what, len(got), len(want)))
        return False
    if not got:
        return True
    g, w = np.array(got, float), np.array(want, float)
    free = np.ones(len(g), bool)
    for k, row in enumerate(w):
        d = np.abs(g - row).max(axis=1)
        d[~free] = np.inf
        i = int(d.argmin())
        if not d[i] <= tol:
            mon.bad('%s: %s is not drawn (nearest: %s)' % (what, row.tolist(), g[int(np.abs(g - row).max(axis=1).argmin())].tolist()))
            return False
        free[i] = False
    return True


class Plots:
    def __init__(self, v, mon, rng, scale, exact_ends=None):
        self.v, self.mon, self.rng, self.scale = v, mon, rng, scale
        self.tol = 1e-9 * scale + 1e-13 * self.maxabs()
        self.far = 1000 * scale

    def maxabs(self):
        b = self.v.bounding_poly
        return float(max(abs(b.min_x), abs(b.max_x), abs(b.min_y), abs(b.max_y)))

    def new(self):
        from foronoi import Visualizer
        self.offset = self.rng.choice([0, 1, 5, .5, 2.25, Decimal('1.5')])
        self.size = self.rng.choice([(8, 8), (3, 4), (5, 2)])
        vis = Visualizer(self.v, canvas_offset=self.offset, figsize=self.size)
        b, o = self.v.bounding_poly, fr(self.offset)
        self.lim = [float(x) for x in (F(b.min_x) - o, F(b.max_x) + o, F(b.min_y) - o, F(b.max_y) + o)]
        return vis

    def add(self, vis, method, *args, **kwargs):
        """Call a plot method and return what it has drawn."""
        ax = vis.canvas
        before = set(map(id, ax.get_children()))
        r = getattr(vis, method)(*args, **kwargs)
        self.mon.check(r is vis, '%s does not return the visualizer', method)
        return Drawn([a for a in ax.get_children() if id(a) not in before])

    # where the origin of a half-edge is, or None if it has no place (yet)
    def origin(self, e, l, max_y):
        from foronoi.graph import Vertex
        o = e.origin
        if isinstance(o, Vertex):
            return None if o.xd is None or o.yd is None else xy(o)
        if l is None:
            return None
        p, q = o.breakpoint
        l = Decimal(str(l))
        P, Q = (p.xd, p.yd), (q.xd, q.yd)
        self.mon.see('moving ends')
        x = steps.breakpoint_x(P, Q, l)
        if x is None:
            return (float(p.xd + q.xd) / 2, float(max_y))
        s = p if abs(p.yd - l) >= abs(q.yd - l) else q
        if s.yd == l:
            return (float(x), float('inf'))
        c = steps.CTX
        # the parabola of s at x
        dx = c.subtract(x, s.xd)
        y = c.add(c.divide(c.multiply(dx, dx), c.multiply(2, c.subtract(s.yd, l))), c.divide(c.add(s.yd, l), Decimal(2)))
        return (float(x), float(y))

    def judged(self, *pts):
        return all(math.isfinite(c) and abs(c) < self.far + self.maxabs() for p in pts for c in p)

    def choose(self, items, name):
        """(argument, expected items): default, a part, all, or none of them."""
        items = list(items)
        k = self.rng.choice(['default', 'default', 'part', 'all', 'empty'])
        if k == 'default':
            return {}, items
        if k == 'empty':
            self.mon.see('explicit empty lists')
            return {name: []}, []
        some = items if k == 'all' else self.rng.sample(items, self.rng.randint(0, len(items)))
        return {name: list(some)}, some

    def line(self):
        """(argument, expected sweep position)"""
        v, rng = self.v, self.rng
        k = rng.choice(['default', 'default', 'lower', 'zero'])
        low = min((s.yd for s in v.sites), default=Decimal(0))
        cur = v.sweep_line
        if k == 'zero' and float(cur) > 0 and all(s.yd >= 0 or s.yd > cur for s in v.sites) and cur == cur and self.construct is None:
            self.mon.see('sweep line at zero')
            return {'sweep_line': 0}, Decimal(0)
        if k == 'lower' and math.isfinite(float(cur)):
            d = Decimal(str(round(rng.uniform(.1, 1) * self.scale, 3))) + Decimal(1) / 1000 * Decimal(self.scale)
            l = min(cur, low) - d
            return {'sweep_line': l}, l
        return {}, cur

    def run(self, state):
        mon, rng, v = self.mon, self.rng, self.v
        self.construct = None if state == 'finished' else state
        vis = self.new()
        order = METHODS[:-2]
        rng.shuffle(order)
        for m in order:
            mon.see('plot ' + m)
            getattr(self, 'plot_' + m)(vis)
            if mon.violations:
                mon.bad('in the state %s after %s' % (state, order[:order.index(m)]))
                return
        self.limits(vis)
        mon.see('states ' + {'finished': 'when finished', 'sweep': 'before clipping'}.get(state, 'during construction'))
        self.plot_all(state)

    def limits(self, vis):
        mon = self.mon
        fig = vis.get_canvas()
        mon.see('plot limits')
        import matplotlib.figure
        mon.check(isinstance(fig, matplotlib.figure.Figure) and fig is vis.canvas.figure, 'get_canvas does not return the figure')
        got = [float(x) for x in vis.canvas.get_xlim() + vis.canvas.get_ylim()]
        mon.check(all(abs(a - b) <= self.tol for a, b in zip(got, self.lim)), 'the limits are %s instead of %s (offset %s)', got,
                  self.lim, self.offset)
        if self.rng.random() < .25:
            with warnings_off():
                fig.canvas.draw()
            pixels = np.asarray(fig.canvas.buffer_rgba())
            mon.check(pixels.min() < 255, 'nothing is visible in the figure')
            mon.see('figures rendered')
        mon.check(tuple(fig.get_size_inches()) == tuple(map(float, self.size)), 'the figure has the size %s instead of %s',
                  fig.get_size_inches(), self.size)

    def plot_sites(self, vis):
        mon, rng = self.mon, self.rng
        kw, want = self.choose(self.v.sites, 'points')
        labels = rng.choice([None, True, False])
        if labels is not None:
            kw['show_labels'] = labels
        if rng.random() < .3:
            kw['color'] = '#123456'
        if rng.random() < .3:
            kw['zorder'] = 7
        d = self.add(vis, 'plot_sites', **kw)
        mon.shape('sites', sorted(kw), len(want))
        mon.check(not d.empty('points', 'texts'), 'plot_sites also draws %s', d.empty('points', 'texts'))
        got = [tuple(p) for pts, _, _ in d.points for p in pts]
        same_multiset(got, [xy(s) for s in want], self.tol, mon, 'sites')
        if want:
            mon.check(all(z == kw.get('zorder', 10) for _, z, _ in d.points), 'zorder of sites is not used')
            mon.check('color' not in kw or all(c == '#123456' for _, _, c in d.points), 'the colour of sites is not used')
        names = sorted(t for _, t in d.texts)
        if labels is False:
            mon.check(not names, 'labels of sites are drawn although switched off')
        else:
            w = {}
            for s in want:
                w.setdefault('P%s' % ('' if s.name is None else s.name), []).append(xy(s))
            mon.check(len(d.texts) == len(want) and all(any(close(p, q, self.tol) for q in w.get(t, [])) for p, t in d.texts),
                      'the labels of sites are %s instead of %s', d.texts, w)
            mon.see('labels', len(want))

    def plot_vertices(self, vis):
        kw, want = self.choose(self.v.vertices, 'vertices')
        if self.construct:
            # vertices that are not given a place yet do not occur
            want = [x for x in want if x.xd is not None]
        d = self.add(vis, 'plot_vertices', **kw)
        self.mon.check(not d.empty('points'), 'plot_vertices also draws %s', d.empty('points'))
        same_multiset([tuple(p) for pts, _, _ in d.points for p in pts], [xy(x) for x in want],
                      max(self.tol, max([1e-12 * abs(c) for x in want for c in xy(x)], default=0)), self.mon, 'vertices')
        self.mon.shape('vertices', sorted(kw), len(want))

    def segments_of(self, e, l, vis):
        top = float(vis.max_y) if hasattr(vis, 'max_y') else self.lim[3]
        a, b = self.origin(e, l, self.lim[3]), self.origin(e.twin, l, self.lim[3])
        return a, b

    def plot_edges(self, vis):
        mon, rng = self.mon, self.rng
        kw, want = self.choose(self.v.edges, 'edges')
        lk, l = self.line()
        kw.update(lk)
        labels = rng.choice([None, True, False])
        if labels is not None:
            kw['show_labels'] = labels
        if rng.random() < .3:
            kw['color'] = '#123456'
        d = self.add(vis, 'plot_edges', **kw)
        mon.shape('edges', sorted(kw), len(want), self.construct is None)
        mon.check(not d.empty('segments', 'texts'), 'plot_edges also draws %s', d.empty('segments', 'texts'))
        W, T = [], []
        far = 0
        for e in want:
            a, b = self.segments_of(e, l, vis)
            if a is None or b is None:
                continue
            if not self.judged(a, b):
                far += 1
                continue
            W += [a + b, b + a]
            T.append(((a[0] + b[0]) / 2, (a[1] + b[1]) / 2, str(e)))
        G = [a + b for a, b, _ in d.segments]
        mon.check(len(G) == len(W) + 2 * far, '%d lines are drawn for %d edges', len(G), len(W) // 2 + far)
        mon.check('color' not in kw or all(s[2][1] in ('#123456', None) for s in d.segments), 'the colour of edges is not used')
        tol = self.tol * 50
        near = [g for g in G if self.judged(g[:2], g[2:])]
        if not far:
            same_multiset(near, W, tol, mon, 'edges')
        mon.see('segments', len(W))
        if labels is False:
            mon.check(not d.texts, 'labels of edges are drawn although switched off')
        else:
            mon.check(len(d.texts) == len(T) + far, '%d labels for %d edges', len(d.texts), len(T) + far)
            rest = list(d.texts)
            for x, y, t in T:
                hit = [r for r in rest if r[1] == t and close(r[0], (x, y), tol)]
                if not hit:
                    mon.bad('the label %s is not in the middle (%s, %s) of its edge: %s' % (t, x, y, [r for r in rest if r[1] == t]))
                    return
                rest.remove(hit[0])
            mon.see('labels', len(T))

    def plot_border_to_site(self, vis):
        mon = self.mon
        from foronoi.visualization.visualizer import Colors
        kw, want = self.choose(self.v.edges, 'edges')
        lk, l = self.line()
        kw.update(lk)
        d = self.add(vis, 'plot_border_to_site', **kw)
        mon.shape('border', sorted(kw), len(want), self.construct is None)
        mon.check(not d.empty('segments'), 'plot_border_to_site also draws %s', d.empty('segments'))
        W = {True: [], False: []}
        far = 0
        for h in want:
            for e in (h, h.twin):
                if e.incident_point is None:
                    continue
                a, b = self.segments_of(e, l, vis)
                if a is None or b is None:
                    continue
                if not self.judged(a, b):
                    far += 1
                    continue
                W[e.incident_point.first_edge is e].append(((a[0] + b[0]) / 2, (a[1] + b[1]) / 2) + xy(e.incident_point))
        mon.check(len(d.segments) == len(W[True]) + len(W[False]) + far, '%d connections are drawn instead of %d', len(d.segments),
                  len(W[True]) + len(W[False]) + far)
        if not far:
            first = rgb(Colors.FIRST_EDGE)
            for k in (True, False):
                same_multiset([a + b for a, b, s in d.segments if (s[1] == first) == k], W[k], 50 * self.tol, mon,
                              'connections of first edges' if k else 'connections of other edges')
        mon.check(all(s[0] == '--' for _, _, s in d.segments), 'connections are not dashed')
        mon.see('segments', len(d.segments))

    def plot_polygon(self, vis):
        mon, b = self.mon, self.v.bounding_poly
        d = self.add(vis, 'plot_polygon')
        if hasattr(b, 'radius'):
            mon.see('circle polygons')
            mon.check(not d.empty('circles'), 'plot_polygon also draws %s', d.empty('circles'))
            mon.check(len(d.circles) == 1 and close(d.circles[0][0], (float(b.xd), float(b.yd)), self.tol) and
                      abs(d.circles[0][1] - float(b.radius)) <= self.tol and not d.circles[0][3], 'the circle is drawn as %s', d.circles)
            return
        mon.check(not d.empty('polygons'), 'plot_polygon also draws %s', d.empty('polygons'))
        pts = d.polygons[0][0] if len(d.polygons) == 1 else []
        if len(pts) > 1 and pts[0] == pts[-1]:
            pts = pts[:-1]
        same_multiset(pts, self.corners, self.tol, mon, 'corners of the polygon')
        # in an order that goes around
        if len(pts) == len(self.corners):
            mon.check(abs(abs(farea(pts)) - self.area) <= 1e-9 * self.area + self.tol * self.scale, 'the outline crosses itself')

    def plot_outgoing_edges(self, vis):
        mon, rng = self.mon, self.rng
        kw, want = self.choose(self.v.vertices, 'vertices')
        if rng.random() < .7:
            kw['scale'] = rng.choice([1, 2, .25, 3.5])
        s = float(kw.get('scale', .5))
        d = self.add(vis, 'plot_outgoing_edges', **kw)
        mon.shape('outgoing', sorted(kw), len(want))
        mon.check(not d.empty('arrows'), 'plot_outgoing_edges also draws %s', d.empty('arrows'))
        W = []
        loose = 0
        for x in want:
            for e in x.connected_edges:
                a, b = self.origin(e, None, None), self.origin(e.twin, None, None)
                if a is None or b is None:
                    continue
                dx, dy = float(e.twin.origin.xd - e.origin.xd), float(e.twin.origin.yd - e.origin.yd)
                n = math.hypot(dx, dy)
                if e.origin.xd == e.twin.origin.xd and e.origin.yd == e.twin.origin.yd:
                    continue
                if n == 0 or not self.judged(a, b):
                    loose += 1
                    continue
                W.append(a + (a[0] + s * dx / n, a[1] + s * dy / n))
        G = [a + b for a, b in d.arrows]
        mon.check(len(G) == len(W) + loose, '%d arrows are drawn instead of %d', len(G), len(W) + loose)
        if not loose:
            same_multiset(G, W, 1e-9 * s + 50 * self.tol, mon, 'arrows')
        mon.see('arrows', len(W))

    def plot_sweep_line(self, vis):
        kw, l = self.line()
        if not math.isfinite(float(l)):
            return
        d = self.add(vis, 'plot_sweep_line', **kw)
        mon = self.mon
        mon.check(not d.empty('segments'), 'plot_sweep_line also draws %s', d.empty('segments'))
        ok = len(d.segments) == 1
        if ok:
            a, b, _ = d.segments[0]
            a, b = sorted((a, b))
            ok = close(a, (self.lim[0], float(l)), self.tol) and close(b, (self.lim[1], float(l)), self.tol)
        mon.check(ok, 'the sweep line at %s is drawn as %s', l, d.segments)

    def plot_event(self, vis):
        mon, rng, v = self.mon, self.rng, self.v
        from foronoi.visualization.visualizer import Colors
        events = [None] + [e for e in v.event_queue.queue] + list(self.seen_events)
        ev = rng.choice(events)
        kw = {} if ev is None else {'event': ev}
        if ev is None:
            ev = v.event
        t = rng.choice([None, True, False])
        if t is not None:
            kw['triangles'] = t
        d = self.add(vis, 'plot_event', **kw)
        if not steps.is_circle(ev):
            mon.check(not d.empty(), 'something is drawn for a site event: %s', d.empty())
            return
        mon.see('circles')
        if not ev.is_valid:
            mon.see('invalid circles')
        mon.shape('event', t, bool(ev.is_valid))
        line = float(ev.radius) > 240 * self.scale and not d.circles
        kinds = ('segments' if line else 'circles', 'points', 'polygons')
        mon.check(not d.empty(*kinds), 'plot_event also draws %s', d.empty(*kinds))
        c = (float(ev.center.xd), float(ev.center.yd))
        tol = self.tol + 1e-12 * float(ev.radius)
        if line:
            self.flat(ev, d)
        mon.check(line or len(d.circles) == 1 and close(d.circles[0][0], c, tol) and abs(d.circles[0][1] - float(ev.radius)) <= tol and
                  d.circles[0][2] == rgb(Colors.VALID_CIRCLE if ev.is_valid else Colors.INVALID_CIRCLE),
                  'the circle with centre %s and radius %s is drawn as %s', c, ev.radius, d.circles)
        trip = [xy(p) for p in ev.point_triple]
        same_multiset([tuple(p) for pts, _, _ in d.points for p in pts], trip, self.tol, mon, 'sites of the circle')
        if t:
            mon.see('triangles')
            pts = d.polygons[0][0] if len(d.polygons) == 1 else []
            if len(pts) == 4 and pts[0] == pts[-1]:
                pts = pts[:-1]
            same_multiset(pts, trip, self.tol, mon, 'corners of the triangle')
        else:
            mon.check(not d.polygons, 'a triangle is drawn although it is not asked for')

    def flat(self, ev, d):
        """The visible part of a circle that is much larger than the canvas, drawn as a line."""
        from foronoi.visualization.visualizer import Colors
        self.mon.see('flat circles')
        if not self.mon.check(len(d.segments) == 1 and d.segments[0][2][1] == rgb(Colors.VALID_CIRCLE if ev.is_valid else Colors.INVALID_CIRCLE),
                              'instead of a circle with radius %.3g, %s is drawn', ev.radius, d.segments):
            return
        a, b, _ = d.segments[0]
        c, r = exy(ev.center), fr(ev.radius)
        b_ = self.v.bounding_poly
        lim = self.lim
        tol = .005 * (self.scale + lim[1] - lim[0] + lim[3] - lim[2])
        w = float(b_.max_x - b_.min_x + b_.max_y - b_.min_y)
        m = ((fr(b_.min_x) + fr(b_.max_x)) / 2, (fr(b_.min_y) + fr(b_.max_y)) / 2)
        for p in (a, b):
            off = ((fr(p[0]) - c[0]) ** 2 + (fr(p[1]) - c[1]) ** 2 - r * r) / (2 * r)
            self.mon.check(abs(off) <= tol or math.hypot(p[0] - float(m[0]), p[1] - float(m[1])) > 2 * self.scale + 2 * w,
                           'the line for a circle with radius %.3g is %.3g off', ev.radius, float(off))
        # it covers what is visible of the circle
        near = float(((m[0] - c[0]) ** 2 + (m[1] - c[1]) ** 2 - r * r) / (2 * r))
        if abs(near) < w:
            self.mon.check(abs(seg_dist((float(m[0]), float(m[1])), a, b) - abs(near)) <= tol and
                           min(dist(p, (float(m[0]), float(m[1]))) for p in (a, b)) >= .49 * w,
                           'the line for a circle with radius %.3g does not cover the canvas', ev.radius)

    def plot_arcs(self, vis):
        mon, rng, v = self.mon, self.rng, self.v
        kw, want = self.choose(v.arcs, 'arcs')
        lk, l = self.line()
        if not math.isfinite(float(l)):
            return
        kw.update(lk)
        pa, sl = rng.choice([None, True, False]), rng.choice([None, True, False])
        if pa is not None:
            kw['plot_arcs'] = pa
        if sl is not None:
            kw['show_labels'] = sl
        with warnings_off():
            d = self.add(vis, 'plot_arcs', **kw)
        mon.shape('arcs', sorted(kw.items(), key=lambda x: x[0])[-1:] and (pa, sl), len(want))
        rays = [a for a in want if a.origin.y == float(l)]
        par = [a for a in want if a.origin.y != float(l)]
        if any(abs(a.origin.y - float(l)) < 1e-6 * self.scale for a in par):
            return
        mon.check(not d.empty('curves', 'vlines', 'texts', 'segments'), 'plot_arcs also draws %s', d.empty('curves', 'vlines', 'texts'))
        lines = [x[0] for x, _ in d.vlines] if pa else []
        if pa:
            got = sorted(float(p[0][0]) for p, _ in d.vlines)
            mon.check(len(got) == len(rays) and all(abs(g - w) <= self.tol for g, w in zip(got, sorted(a.origin.x for a in rays))),
                      'rays at %s are drawn instead of %s', got, [a.origin.x for a in rays])
        else:
            mon.check(not d.vlines, 'rays are drawn although arcs are not asked for')
        n = (len(par) if pa else 0) + (1 if par else 0)
        if not mon.check(len(d.curves) == n and not d.segments, '%d curves are drawn instead of %d', len(d.curves) + len(d.segments), n):
            return
        if not par:
            mon.check(not d.texts, 'arcs are labelled although there are none')
            return
        ll = float(l)

        def f(a, x):
            return (x - a.origin.x) ** 2 / (2 * (a.origin.y - ll)) + (a.origin.y + ll) / 2
        rest = list(par)
        best = None
        for xyc, style in d.curves:
            x, y = xyc[:, 0], xyc[:, 1]
            mon.check(len(x) >= 100 and abs(x.min() - self.lim[0]) <= 1e-3 * self.scale and abs(x.max() - self.lim[1]) <= 1e-3 * self.scale,
                      'a curve runs from %s to %s instead of %s to %s', x.min(), x.max(), *self.lim[:2])
            F_ = np.array([f(a, x) for a in par])
            size = 1 + np.abs(F_).max(axis=0) + self.maxabs() ** 2 / np.abs([a.origin.y - ll for a in par]).min()
            tol = 1e-11 * size + self.tol
            env = F_.min(axis=0)
            if style[0] == '-' and (np.abs(y - env) <= tol).all() and best is None:
                best = (x, env, F_)
                continue
            hit = [a for a in rest if (np.abs(y - f(a, x)) <= tol).all()]
            if not hit:
                mon.bad('at y=%s a curve is drawn that is neither the beach line nor an arc' % l)
                return
            rest.remove(hit[0])
        if not mon.check(best is not None, 'the beach line at y=%s is not drawn', l):
            return
        mon.check(not pa or not rest, 'an arc is not drawn')
        mon.see('beach lines')
        if sl is False:
            mon.check(not d.texts, 'arcs are labelled although it is switched off')
            return
        x, env, F_ = best
        must = set()
        can = set()
        gap = 1e-6 * self.scale + 1e-9 * np.abs(env)
        for i, a in enumerate(par):
            d_ = F_[i] - env
            others = np.array([F_[j] for j in range(len(par)) if par[j].origin is not a.origin])
            if (d_ <= gap).any():
                can.add(str(a.origin.name))
            if len(others) == 0 or (F_[i] < others.min(axis=0) - gap).any():
                must.add(str(a.origin.name))
        got = [t for _, t in d.texts]
        mon.check(must <= set(got) <= can and len(got) == len(set(got)), 'the labels of the arcs are %s instead of %s', sorted(got), sorted(must))
        for (px, py), t in d.texts:
            if not math.isfinite(px):
                continue
            for a in par:
                if str(a.origin.name) == t:
                    w = f(a, px)
                    mon.check(abs(py - w) <= 1e-9 * (1 + abs(w)) + 50 * self.tol + 1e-11 * self.maxabs() ** 2 / abs(a.origin.y - ll),
                              'the label %s at (%s, %s) is not on its arc', t, px, py)
                    break
        mon.see('arc labels', len(got))

    def plot_all(self, state):
        mon, rng, v = self.mon, self.rng, self.v
        names = ['polygon', 'edges', 'vertices', 'sites', 'outgoing_edges', 'border_to_site', 'edge_labels', 'site_labels',
                 'triangles', 'arcs', 'sweep_line', 'events', 'arc_labels', 'beach_line']
        opt = {k: rng.random() < .5 for k in names if rng.random() < .7}
        if rng.random() < .5:
            opt['scale'] = rng.choice([2, .5])
        default = dict.fromkeys(names, False)
        default.update(edges=True, vertices=True, sites=True, scale=1)
        eff = dict(default, **opt)
        if not math.isfinite(float(v.sweep_line)):
            return
        vis = self.new()
        with warnings_off():
            all_ = self.add(vis, 'plot_all', **opt)
            got = [float(x) for x in vis.canvas.get_xlim() + vis.canvas.get_ylim()]
            mon.check(all(abs(a - b) <= self.tol for a, b in zip(got, self.lim)), 'plot_all leaves the limits at %s instead of %s',
                      got, self.lim)
            from foronoi import Visualizer
            one = Visualizer(v, canvas_offset=self.offset, figsize=self.size)
            ax = one.canvas
            before = set(map(id, ax.get_children()))
            if eff['sweep_line']:
                one.plot_sweep_line()
            if eff['polygon']:
                one.plot_polygon()
            if eff['edges']:
                one.plot_edges(show_labels=eff['edge_labels'])
            if eff['border_to_site']:
                one.plot_border_to_site()
            if eff['vertices']:
                one.plot_vertices()
            if eff['sites']:
                one.plot_sites(show_labels=eff['site_labels'])
            if eff['outgoing_edges']:
                one.plot_outgoing_edges(scale=eff['scale'])
            if eff['events']:
                one.plot_event(triangles=eff['triangles'])
            if eff['beach_line']:
                one.plot_arcs(plot_arcs=eff['arcs'], show_labels=eff['arc_labels'])
            parts = Drawn([a for a in ax.get_children() if id(a) not in before])
        a, b = all_.summary(), parts.summary()
        for k in a:
            mon.check(a[k] == b[k], 'plot_all(%s) draws other %s than its parts: %s', opt, k,
                      [x for x in a[k] if x not in b[k]][:2] or [x for x in b[k] if x not in a[k]][:2])
        mon.see('plot all')
        mon.shape('all', tuple(sorted(opt.items())))


def warnings_off():
    import warnings
    c = warnings.catch_warnings()

    class W:
        def __enter__(self):
            c.__enter__()
            warnings.simplefilter('ignore')
            self.e = np.errstate(all='ignore')
            self.e.__enter__()

        def __exit__(self, *a):
            self.e.__exit__(*a)
            return c.__exit__(*a)
    return W()


def contents(ax):
    return Drawn(list(ax.lines) + list(ax.patches) + list(ax.collections) + list(ax.texts) + list(ax.artists)).summary()


def observe(v, mon, rng, Presets):
    """Attach a VoronoiObserver whose figures are compared with what plot_all draws of the state that it is notified of."""
    from foronoi import Visualizer
    f = api()
    names = ['polygon', 'edges', 'vertices', 'sites', 'outgoing_edges', 'border_to_site', 'edge_labels', 'site_labels',
             'triangles', 'arcs', 'sweep_line', 'events', 'arc_labels', 'beach_line']
    settings = {k: rng.random() < .5 for k in names if rng.random() < .4}
    st, be, res = rng.random() < .3, rng.random() < .5, rng.random() < .7
    offset = rng.choice([1, 0, 2.5])

    def cb(observer, figure):
        ax = figure.axes[0]
        got, lim = contents(ax), ax.get_xlim() + ax.get_ylim()
        # during the construction all polygons are unfinished; the message is known by what is pending
        preset = state[0]
        eff = dict(presets[preset], **settings)
        vis = Visualizer(v, canvas_offset=offset)
        with warnings_off():
            vis.plot_all(**eff)
        want = contents(vis.canvas)
        for k in got:
            mon.check(got[k] == want[k], 'the figure of a VoronoiObserver with settings %s shows other %s than plot_all: %s', settings, k,
                      [x for x in got[k] if x not in want[k]][:2] or [x for x in want[k] if x not in got[k]][:2])
        mon.check(tuple(map(float, lim)) == tuple(map(float, vis.canvas.get_xlim() + vis.canvas.get_ylim())),
                  'the figure of a VoronoiObserver has the limits %s', lim)
        mon.see('figures of observers')
    state = ['construction']
    presets = {k: dict(getattr(Presets, k)) for k in ('construction', 'clipping', 'final')}

    def go(k):
        def set_(a):
            state[0] = k
        return set_
    v.attach_observer(steps.make_monitor(go('construction'), sweep=go('clipping'), done=go('final')))
    v.attach_observer(f.VoronoiObserver(visualize_steps=st, visualize_before_clipping=be, visualize_result=res, callback=cb,
                                        canvas_offset=offset, settings=settings if settings or rng.random() < .5 else None))


def run(job, mon):
    import matplotlib.pyplot as plt
    from foronoi.visualization.visualizer import Presets
    f = api()
    rng = random.Random('plots' + repr(sorted(job.items())))
    if 'disc' in job:
        from foronoi.contrib import BoundingCircle
        x, y, r = rng.randint(-5, 5), rng.randint(-5, 5), 10
        sites = []
        while len(sites) < 6:
            a, b = rng.uniform(-r, r), rng.uniform(-r, r)
            if a * a + b * b < .9 * r * r:
                sites.append((x + a, y + b))
        sites = sites[:rng.randint(2, 6)]

        def polygon():
            return BoundingCircle(x, y, r)
        corners, area, scale = None, None, 2 * r
    else:
        c = judge(job, mon)
        if not c:
            return
        poly, sites, o = c
        if len(sites) > 12:
            sites = sites[:rng.randint(2, 12)]
            o = Oracle(poly, sites)
            if not o.wellposed:
                mon.skip('vertex on the border')
                return

        def polygon():
            return f.Polygon(poly)
        corners, area, scale = [(float(fr(x)), float(fr(y))) for x, y in poly], float(o.total), o.scale
    flag = rng.random() < .6
    plain = f.Voronoi(polygon(), remove_zero_length_edges=flag)
    plain.create_diagram(sites)
    want = full(plain)
    presets = {k: copy.deepcopy(dict(getattr(Presets, k))) for k in ('construction', 'clipping', 'final')}
    v = f.Voronoi(polygon(), remove_zero_length_edges=flag)
    pick = set(rng.sample(range(len(sites) * 3), min(len(sites) * 3, 2 if rng.random() < .7 else 3)))
    sweep = rng.random() < .3
    count = [0]
    p = Plots(v, mon, rng, scale)
    p.corners, p.area = corners, area
    p.seen_events = []

    def step(a):
        count[0] += 1
        for e in a.event_queue.queue:
            if len(p.seen_events) < 40 and steps.is_circle(e) and not any(e is x for x in p.seen_events):
                p.seen_events.append(e)
        p.seen_events.append(a.event)
        if count[0] - 1 in pick and not mon.violations:
            p.run('step')

    def before(a):
        if sweep and not mon.violations:
            p.run('sweep')
    v.attach_observer(steps.make_monitor(step, sweep=before))
    if rng.random() < .4:
        observe(v, mon, rng, Presets)
    v.create_diagram(sites)
    if mon.violations:
        return
    mon.check(full(v) == want, 'plotting during the construction changes the diagram')
    p.run('finished')
    mon.check(full(v) == want, 'plotting changes the diagram')
    for k in presets:
        mon.check(dict(getattr(Presets, k)) == presets[k], 'the preset %s is changed', k)
    plt.close('all')
