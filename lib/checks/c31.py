"""C31: rendered figures show the diagram where it is, at a bounded cost."""
import contextlib
import random
import time
from lib.diagram import *
from lib import steps

RULE = ('Layout generators (with sites on lines and rows up to rounding, so that circles, breakpoints and edges end 1e15 to 1e50 sizes away) '
        'and bounding circles; figures of observers after random steps, before clipping and at the end, and of visualizers, with random '
        'options, offsets and sizes, are rendered to pixels. Every pixel that shows something has to be near something that is to be '
        'shown there, and everything that is to be shown has its colour on the pixels where nothing else is near, both computed from '
        'the sites, the sweep line and the event alone. Coordinates handed to the renderer are watched. Distinct: by layout shape, state and options.')
ASSUMPTIONS = ['no Voronoi vertex on the border of the polygon', 'lines within 3 pixels, and places where lines of different kinds are '
               'within 8 pixels of each other, are not told apart', 'labels are only looked at for being renderable']
MUST_SEE = ['figures', 'figures of steps', 'figures before clipping', 'final figures', 'figures of visualizers', 'figures with circles',
            'pixels shown', 'pixels judged empty', 'pixels of edges', 'pixels of sites', 'pixels of vertices', 'pixels of the sweep line', 'pixels of the beach line',
            'pixels of the event circle', 'pixels of the polygon', 'paths rendered', 'bounding circles', 'figures with all options']
KINDS = ['box', 'conv', 'intgrid', 'samey', 'few', 'tri', 'grid', 'edgecluster', 'boxneg', 'onborder', 'collinear', 'fewlevel', 'mirror', 'circle',
         'boxint', 'tiny', 'huge', 'boxfar', 'toprow', 'hex', 'floatline', 'floatrow', 'decrows', 'nearcol', 'nearlevel', 'farflat']
LIMIT = 120
WHITE = 248          # darker pixels show something


def jobs(seed, tier):
    q = tier == 'quick'
    kinds = [k for k in KINDS if k in gen.ALL]
    return gen_jobs(seed, 5 if q else 45, kinds) + gen_jobs(seed + '.f' if isinstance(seed, str) else '%s.f' % seed, 10 if q else 90, ['floatrow', 'decrows']) + \
        gen_jobs('%s.o' % seed, 8 if q else 60, ['farflat']) + \
        [dict(disc='%s.%s' % (seed, k)) for k in range(15 if q else 150)]


@contextlib.contextmanager
def watched(mon):
    """Stands in for the renderer's entry: a curve this large would take memory without bound and is reported instead of being drawn."""
    from matplotlib.backends import backend_agg as B
    old = B.RendererAgg.draw_path

    def draw_path(self, gc, path, transform, rgbFace=None):
        mon.see('paths rendered')
        if len(path.vertices):
            curved = path.codes is not None and bool(np.isin(path.codes, (3, 4)).any())
            dashed = gc.get_dashes()[1] is not None
            p = path.vertices
            if curved or dashed:
                # what is left of it after the renderer's own clipping (which does not cut curves)
                try:
                    q = path.cleaned(transform=transform, remove_nans=True, clip=None if curved else (-1, -1, self.width + 1, self.height + 1))
                    p = q.vertices[q.codes != 0]
                except Exception:
                    p = transform.transform(path.vertices)
                p = np.abs(p[np.isfinite(p).all(axis=1)])
                big = float(p.max()) if len(p) else 0
                if dashed and len(path.vertices) == 2:
                    # the clipping of straight lines fails for some that end too far away
                    q = np.abs(transform.transform(path.vertices))
                    far = float(q.max()) if np.isfinite(q).all() else 0
                    big = far if far > 1e25 else big
                if big > (1e11 if curved else 1e8):
                    mon.bad('a %s that is %.3g pixels large is to be rendered' % ('curve' if curved else 'dashed line', big))
                    return
        return old(self, gc, path, transform, rgbFace)
    B.RendererAgg.draw_path = draw_path
    try:
        yield
    finally:
        B.RendererAgg.draw_path = old


def rgb255(c):
    from matplotlib.colors import to_rgb
    return np.round(np.array(to_rgb(c)) * 255)


class Picture:
    """What has to be seen: for each layer the distance (in pixels) of every pixel from it, its colour and half its width."""

    def __init__(self, fig, lim, mon):
        self.mon, self.fig = mon, fig
        fig.set_dpi(100)
        with watched(mon):
            fig.canvas.draw()
        if mon.violations:
            raise Violation(mon.violations[0])
        self.pix = np.asarray(fig.canvas.buffer_rgba())[:, :, :3].astype(float)
        h, w = self.pix.shape[:2]
        mon.check((w, h) == tuple(int(round(100 * x)) for x in fig.get_size_inches()), 'a figure of %s has %s pixels', fig.get_size_inches(), (w, h))
        box = fig.axes[0].get_window_extent()
        self.x0, self.y0, self.x1, self.y1 = box.x0, box.y0, box.x1, box.y1
        self.lim = lim
        self.sx, self.sy = (self.x1 - self.x0) / (lim[1] - lim[0]), (self.y1 - self.y0) / (lim[3] - lim[2])
        # pixel centres inside of the axes
        c0, c1 = int(self.x0) + 4, int(self.x1) - 4
        r0, r1 = int(self.y0) + 4, int(self.y1) - 4
        self.px = np.arange(c0, c1) + .5
        self.py = np.arange(r0, r1) + .5
        self.img = self.pix[::-1][r0:r1, c0:c1]
        # in the coordinates of the diagram
        self.X = lim[0] + (self.px - self.x0) / self.sx
        self.Y = lim[2] + (self.py - self.y0) / self.sy
        self.GX, self.GY = np.meshgrid(self.X, self.Y)
        self.layers = []
        self.free = np.zeros(self.GX.shape, bool)     # where anything may be seen

    def to_pix(self, p):
        return (self.x0 + (p[0] - self.lim[0]) * self.sx, self.y0 + (p[1] - self.lim[2]) * self.sy)

    def points(self, name, pts, color, radius):
        D = np.full(self.GX.shape, 1e9)
        PX, PY = self.px[None, :], self.py[:, None]
        for p in pts:
            x, y = self.to_pix(p)
            if -20 < x < 1e4 and -20 < y < 1e4:
                D = np.minimum(D, np.hypot(PX - x, PY - y))
        self.layers.append((name, D, rgb255(color), radius, radius - 2))

    def segs(self, name, segs, color, width):
        D = np.full(self.GX.shape, 1e9)
        PX, PY = self.px[None, :], self.py[:, None]
        for a, b in segs:
            ax, ay = self.to_pix(a)
            bx, by = self.to_pix(b)
            dx, dy = bx - ax, by - ay
            L = dx * dx + dy * dy
            t = np.clip(((PX - ax) * dx + (PY - ay) * dy) / L, 0, 1) if L else 0
            D = np.minimum(D, np.hypot(ax + t * dx - PX, ay + t * dy - PY))
        self.layers.append((name, D, rgb255(color), width / 2, None))

    def field(self, name, D, color, width):
        self.layers.append((name, D, rgb255(color), width / 2, None))

    def judge(self, what):
        mon = self.mon
        mon.see('figures')
        shown = self.img.min(axis=2) < WHITE
        mon.see('pixels shown', int(shown.sum()))
        allowed = self.free.copy()
        for name, D, color, half, core in self.layers:
            allowed |= D <= half + 2.6
        bad = shown & ~allowed
        mon.see('pixels judged empty', int((~allowed).sum()))
        if bad.sum() > 0:
            r, c = np.argwhere(bad)[0]
            mon.bad('%s: there are %d pixels where nothing is to be seen, first at (%.9g, %.9g) with the colour %s' % (
                what, bad.sum(), self.X[c], self.Y[r], self.img[r, c].astype(int).tolist()))
            return
        for k, (name, D, color, half, core) in enumerate(self.layers):
            need = D <= (core if core is not None else .5)
            for j, (n2, D2, _, h2, _) in enumerate(self.layers):
                if j != k:
                    need &= D2 > h2 + 8
            need &= ~self.free
            need[:3] = need[-3:] = False
            need[:, :3] = need[:, -3:] = False
            if not need.any():
                continue
            mon.see('pixels of ' + name, int(need.sum()))
            # lines are shifted to whole pixels: the colour is on the pixel or on one next to it
            near = np.abs(self.img - color).max(axis=2)
            best = near.copy()
            for dr in (-1, 0, 1):
                for dc in (-1, 0, 1):
                    best = np.minimum(best, np.roll(np.roll(near, dr, 0), dc, 1))
            miss = need & (best > (120 if name == 'the polygon' else 60))
            if miss.sum() > 0:
                r, c = np.argwhere(miss)[0]
                mon.bad('%s: %d of %d pixels do not show %s, first at (%.9g, %.9g), which is %s' % (
                    what, miss.sum(), need.sum(), name, self.X[c], self.Y[r], self.img[r, c].astype(int).tolist()))
                return


def borders(pic, sites):
    """Distance in pixels of every pixel from the border of the cell (of the given sites) that it is in."""
    GX, GY = pic.GX, pic.GY
    S = np.array(sites, float).reshape(-1, 2)
    shape = GX.shape
    if len(S) < 2:
        return np.full(shape, 1e9), np.hypot(GX - S[0, 0], GY - S[0, 1]) if len(S) else np.full(shape, np.inf), np.zeros(shape, int)
    d2 = (GX[..., None] - S[:, 0]) ** 2 + (GY[..., None] - S[:, 1]) ** 2
    near = d2.argmin(axis=2)
    best = np.take_along_axis(d2, near[..., None], 2)[..., 0]
    N = S[near]
    D = np.full(shape, 1e9)
    for j in range(len(S)):
        nx, ny = S[j, 0] - N[..., 0], S[j, 1] - N[..., 1]
        g = np.hypot(nx / pic.sx, ny / pic.sy)
        with np.errstate(divide='ignore', invalid='ignore'):
            v = (d2[..., j] - best) / 2 / g
        v[near == j] = 1e9
        D = np.minimum(D, v)
    return D, np.sqrt(best), near


def parabolas(xs, sites, l):
    """The height of the beach line (the lowest arc) at xs for a sweep line at l (Decimal); sites on it are left out."""
    best = np.full(len(xs), np.inf)
    for s in sites:
        h = float(steps.CTX.subtract(s[1], l))
        if h <= 0:
            continue
        with np.errstate(over='ignore'):
            y = ((xs - float(s[0])) ** 2 / h + h) / 2 + float(l)
        best = np.minimum(best, y)
    return best


class Scene:
    def __init__(self, mon, sites, poly, circle):
        self.mon, self.poly, self.circle = mon, poly, circle
        self.sites = [(Decimal(str(x)), Decimal(str(y))) for x, y in sites]
        self.fs = [(float(x), float(y)) for x, y in self.sites]

    def limits(self, offset):
        if self.circle:
            x, y, r = map(float, self.circle)
            b = (x - 2 * r, x + 2 * r, y - 2 * r, y + 2 * r)
        else:
            xs, ys = [float(p[0]) for p in self.poly], [float(p[1]) for p in self.poly]
            b = (min(xs), max(xs), min(ys), max(ys))
        o = float(offset)
        return [b[0] - o, b[1] + o, b[2] - o, b[3] + o]

    def outline(self, pic):
        """Distance of pixels from the outline, and signed (positive outside)."""
        if self.circle:
            x, y, r = map(float, self.circle)
            d = np.hypot(pic.GX - x, pic.GY - y)
            with np.errstate(divide='ignore', invalid='ignore'):
                g = np.hypot((pic.GX - x) / d / pic.sx, (pic.GY - y) / d / pic.sy)
            s = (d - r) / np.where(np.isfinite(g) & (g > 0), g, 1)
            return np.abs(s), s
        P = [(float(a), float(b)) for a, b in self.poly]
        if farea(P) < 0:
            P = P[::-1]
        out = np.full(pic.GX.shape, -1e9)
        for i in range(len(P)):
            (ax, ay), (bx, by) = pic.to_pix(P[i]), pic.to_pix(P[(i + 1) % len(P)])
            L = math.hypot(bx - ax, by - ay)
            if L == 0:
                continue
            out = np.maximum(out, ((pic.px[None, :] - ax) * (by - ay) - (pic.py[:, None] - ay) * (bx - ax)) / L)
        return None, out

    def add_polygon(self, pic, color):
        if self.circle:
            pic.field('the polygon', self.outline(pic)[0], color, 1.4)
        else:
            P = [(float(a), float(b)) for a, b in self.poly]
            pic.segs('the polygon', [(P[i], P[(i + 1) % len(P)]) for i in range(len(P))], color, 1.4)

    def construction(self, fig, v, offset, options, state):
        """A figure after a step or before clipping, when the sweep line is at v.sweep_line."""
        from foronoi.visualization.visualizer import Colors
        mon = self.mon
        lim = self.limits(offset)
        pic = Picture(fig, lim, mon)
        l = v.sweep_line
        size = max(lim[1] - lim[0], lim[3] - lim[2])
        far = [abs(z) for e in v.edges for h in (e, e.twin) for q in [h.get_origin(l, Decimal(str(lim[3])))] if q is not None
               for z in (float(q.xd), float(q.yd)) if z == z]
        if max(far, default=0) > 1e8 * size:
            # positions on the canvas are lost in the ends of lines
            mon.see('figures with edges that end far away')
            return
        above = [s for s in self.sites if s[1] > l]
        level = [s for s in self.sites if s[1] == l]
        fl_ = float(l)
        D, best, near = borders(pic, [(float(a), float(b)) for a, b in above])
        # edges are traced above the beach line; where it is cannot be told to the pixel when it is steep
        cols = np.concatenate([pic.X + k / pic.sx / 2 for k in range(-8, 9)])
        with np.errstate(invalid='ignore'):
            ys = parabolas(cols, above, l).reshape(17, -1)
            # a peak may be between the samples
            jump = np.nan_to_num(np.abs(np.diff(ys, axis=0)), nan=1e300, posinf=1e300).max(axis=0)
            lo, hi = ys.min(axis=0) - jump, ys.max(axis=0) + jump
            for s in above:
                # a narrow arc may be between them, too
                at = np.abs(pic.X - float(s[0])) * pic.sx <= 5
                lo = np.where(at, np.minimum(lo, float(s[1] + l) / 2), lo)
            plo = np.clip(pic.y0 + (lo - lim[2]) * pic.sy, -1e6, 1e6)
            phi = np.clip(pic.y0 + (hi - lim[2]) * pic.sy, -1e6, 1e6)
        PY = pic.py[:, None]
        upper = PY >= plo[None, :] - 3
        if options.get('edges', True):
            pic.field('edges', np.where(PY >= phi[None, :] + 6, D, np.where(upper & (D <= 5), 3, 1e9)), Colors.EDGE, 2.1)
            # an arc that has just been made: its edge is traced where the new site is
            for s in level + [s for s in above if float(s[1] - l) * pic.sy < 6]:
                x, y = pic.to_pix((float(s[0]), float(s[1])))
                pic.free |= (np.abs(pic.px[None, :] - x) <= 5) & (PY >= y - 6)
        if options.get('beach_line'):
            ok = np.isfinite(ys).all(axis=0)
            D2 = np.maximum(np.maximum(plo[None, :] - PY, PY - phi[None, :]), 0)
            flat = ok & (phi - plo < 3)
            mid = (plo + phi) / 2
            D3 = np.where(flat[None, :], np.abs(PY - mid[None, :]), np.where(D2 < 3, 3, D2))
            pic.field('the beach line', np.where(ok[None, :], D3, 1e9), Colors.BEACH_LINE, 2.1)
        if options.get('sweep_line'):
            pic.segs('the sweep line', [((lim[0], fl_), (lim[1], fl_))], Colors.SWEEP_LINE, 2.1)
        if options.get('polygon'):
            self.add_polygon(pic, Colors.BOUNDING_BOX)
        if options.get('events') and steps.is_circle(v.event):
            self.event(pic, v.event, lim)
        if options.get('vertices', True):
            # places at the same distance from three sites, with nothing inside
            pic.points('vertices', [xy(x) for x in v.vertices], Colors.VERTICES, 6)
        if options.get('sites', True):
            pic.points('sites', self.fs, Colors.CELL_POINTS, 6)
        pic.judge('%s with the sweep line at %.12g' % (state, fl_))

    def event(self, pic, ev, lim):
        from foronoi.visualization.visualizer import Colors
        self.mon.see('figures with circles')
        c = steps.CTX
        p = ev.point_triple[0]
        trip = [exy(q) for q in ev.point_triple]
        from lib.checks.c11 import circle
        found = circle(*trip)
        if found is None:
            return
        (cx, cy), r = found
        u = (float((trip[0][0] - cx) / F(r)), float((trip[0][1] - cy) / F(r)))
        dx, dy = pic.GX - float(p.xd), pic.GY - float(p.yd)
        # (|q - c|^2 - r^2) / 2r without cancellation
        f = (dx * dx + dy * dy) / (2 * r) + dx * u[0] + dy * u[1]
        gx, gy = dx / r + u[0], dy / r + u[1]
        g = np.hypot(gx / pic.sx, gy / pic.sy)
        with np.errstate(divide='ignore', invalid='ignore'):
            D = np.where(g > 0, np.abs(f) / g, 1e9)
        if r * min(pic.sx, pic.sy) > 1e4:
            self.mon.see('large circles')
        if r * min(pic.sx, pic.sy) < 12:
            x, y = pic.to_pix((float(cx), float(cy)))
            pic.free |= (np.abs(pic.px[None, :] - x) < r * pic.sx + 5) & (np.abs(pic.py[:, None] - y) < r * pic.sy + 5)
        else:
            pic.field('the event circle', D, Colors.VALID_CIRCLE if ev.is_valid else Colors.INVALID_CIRCLE, 2.8)
        pic.points('the sites of the circle', [xy(q) for q in ev.point_triple], Colors.VALID_CIRCLE, 6)

    def final(self, fig, o, v, offset, options):
        from foronoi.visualization.visualizer import Colors
        lim = self.limits(offset)
        pic = Picture(fig, lim, self.mon)
        D, best, near = borders(pic, self.fs)
        _, out = self.outline(pic)
        if options.get('edges', True):
            if self.circle:
                # along the circle, straight edges lead from each end to the next
                D = np.where(out <= -4, D, np.where((out <= 4) & (D <= 6), 3, 1e9))
                pic.field('edges', D, Colors.EDGE, 2.1)
                pic.segs('outline edges', [(xy(e.origin), xy(e.twin.origin)) for e in v.edges
                                           if e.incident_point is None or e.twin.incident_point is None], Colors.EDGE, 2.1)
            else:
                D = np.where(out <= -4, D, np.where((out <= 4) & (D <= 6), 3, 1e9))
                pic.field('edges', D, Colors.EDGE, 2.1)
                P = [(float(a), float(b)) for a, b in self.poly]
                pic.segs('outline edges', [(P[i], P[(i + 1) % len(P)]) for i in range(len(P))], Colors.EDGE, 2.1)
        if options.get('polygon'):
            self.add_polygon(pic, Colors.BOUNDING_BOX)
        if options.get('vertices', True):
            pic.points('vertices', [xy(x) for x in v.vertices] if self.circle else [(float(a), float(b)) for a, b in o.at], Colors.VERTICES, 6)
        if options.get('sites', True):
            pic.points('sites', self.fs, Colors.CELL_POINTS, 6)
        pic.judge('the finished diagram')


def run(job, mon):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _run(job, mon)


def _run(job, mon):
    import matplotlib.pyplot as plt
    from foronoi.observers.observer import Observer
    from foronoi.observers.message import Message
    from foronoi.visualization.visualizer import Presets
    f = api()
    circle = None
    if 'disc' in job:
        from lib.checks import c23
        from foronoi.contrib import BoundingCircle
        rng = random.Random('pixels' + job['disc'])
        circle, sites = c23.make({'layout': rng.choice(['rand', 'grid', 'row', 'rim', 'pair', 'cols']), 'seed': job['disc']})
        if not 1e-3 < float(circle[2]) < 1e6 or abs(float(circle[0])) + abs(float(circle[1])) > 1e4 * float(circle[2]):
            mon.skip('a circle of another size')
            return
        poly, o = None, None
        bounding = BoundingCircle(*circle)
        size = 4 * float(circle[2])
        mon.see('bounding circles')
    else:
        c = judge(job, mon)
        if not c:
            return
        poly, sites, o = c
        rng = random.Random('pixels' + str(job['seed']) + job['gen'])
        bounding = f.Polygon(poly)
        size = o.scale
        if max(abs(x) for x in o.fpoly[0]) > 1e9 * size:
            mon.skip('too far from the origin for pixels')
            return
    if len(sites) > 60:
        mon.skip('more sites than are told apart')
        return
    scene = Scene(mon, sites, poly, circle)
    # with an offset of the size of the diagram at most
    offset = rng.choice([0, Decimal(str(round(size / 10, 9))) or 1, 1, .5]) if 2 < size < 1e5 else Decimal(repr(size / rng.choice([8, 20])))
    figsize = rng.choice([(4, 3), (3, 4), (5, 5)])
    v = f.Voronoi(bounding, remove_zero_length_edges=rng.random() < .8)
    steps_wanted = set(rng.sample(range(4 * len(sites) + 4), min(4 * len(sites) + 4, 6)))
    mode = rng.choice(['plain', 'plain', 'plain', 'all', 'some'])
    settings = {}
    if mode == 'all':
        # everything at once has to be rendered, but is not looked at
        settings = dict(arc_labels=True, arcs=True, beach_line=True, border_to_site=True, outgoing_edges=True, edge_labels=True, site_labels=True,
                        triangles=True, events=True, sweep_line=True, polygon=True, scale=float(size) / 20)
        mon.see('figures with all options')
    elif mode == 'some':
        settings = {k: rng.random() < .5 for k in ('polygon', 'edges', 'vertices', 'sites', 'events', 'beach_line', 'sweep_line')}
        if rng.random() < .3:
            settings['triangles'] = False
    kw = {'figsize': figsize, 'canvas_offset': offset}
    if settings:
        kw['settings'] = settings
    count = [0]

    class Last(Observer):
        message = None

        def update(self, subject, message, **kwargs):
            self.message = message

    state = {}

    def callback(observer, fig):
        n = count[0]
        count[0] += 1
        m = state['message']
        kind = {Message.STEP_FINISHED: 'a step', Message.SWEEP_FINISHED: 'the finished sweep'}.get(m, 'end')
        if kind == 'a step' and n not in steps_wanted and not (steps.is_circle(v.event) and float(v.event.radius) > 1e6 * size and rng.random() < .3):
            return
        if mon.violations:
            return
        mon.shape(kind, len(sites), mode, n, circle is None)
        if mode == 'all':
            with watched(mon):
                fig.canvas.draw()
            mon.see('figures')
            return
        preset = {'a step': Presets.construction, 'the finished sweep': Presets.clipping}.get(kind, Presets.final)
        options = {'a step': dict(polygon=True, events=True, beach_line=True, sweep_line=True), 'the finished sweep': dict(polygon=True)}.get(kind, {})
        options = dict(options, **settings)
        if kind != 'a step' and any(options.get(k) for k in ('events', 'beach_line', 'sweep_line')):
            # leftovers of the construction are not meant to be shown here
            with watched(mon):
                fig.canvas.draw()
            return
        if kind == 'end':
            mon.see('final figures')
            scene.final(fig, o, v, offset, options)
        else:
            mon.see('figures of steps' if kind == 'a step' else 'figures before clipping')
            scene.construction(fig, v, offset, options, kind)

    class Messages(Observer):
        def update(self, subject, message, **kwargs):
            state['message'] = message
    v.attach_observer(Messages())
    v.attach_observer(f.VoronoiObserver(visualize_before_clipping=True, callback=callback, **kw))
    try:
        v.create_diagram(sites)
        if mon.violations:
            return
        mon.check(count[0] >= len(sites) + 2, 'there are only %d figures', count[0])
        # a visualizer of the finished diagram
        options = dict(events=False, beach_line=False, sweep_line=False, **{k: rng.random() < .6 for k in ('polygon', 'edges', 'vertices', 'sites')})
        vis = f.Visualizer(v, canvas_offset=offset, figsize=figsize)
        names = [k for k in options if options[k]]
        rng.shuffle(names)
        for k in names:
            if k == 'sites':
                vis.plot_sites(show_labels=False)
            elif k == 'edges':
                vis.plot_edges(show_labels=False)
            else:
                getattr(vis, 'plot_' + k)()
        mon.see('figures of visualizers')
        scene.final(vis.get_canvas(), o, v, offset, options)
    finally:
        plt.close('all')
