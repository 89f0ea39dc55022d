"""Creates diagrams with the real code and reads them through the public interface, with bounded walks."""
import contextlib
import io
import math
from decimal import Decimal
from fractions import Fraction as F

import numpy as np

from lib import gen
from lib.oracle import Oracle, fr
from lib.runner import Violation


def api():
    import foronoi
    return foronoi


def expand(job):
    """The polygon and sites of a job: explicit, or made by a generator."""
    if 'poly' in job:
        def num(v):
            return Decimal(v) if isinstance(v, str) else v
        return ([(num(x), num(y)) for x, y in job['poly']], [(num(x), num(y)) for x, y in job['sites']])
    return gen.make(job['gen'], job['seed'])


def describe(job):
    if isinstance(job, dict) and ('gen' in job or 'poly' in job):
        poly, sites = expand(job)
        d = dict(job)
        d['poly'] = [[str(x), str(y)] for x, y in poly]
        d['sites'] = [[str(x), str(y)] for x, y in sites[:40]]
        if len(sites) > 40:
            d['sites_total'] = len(sites)
        return d
    return job


def gen_jobs(seed, per_kind, kinds=None, **extra):
    """per_kind cases of every generator; VERIF_SEED shifts all of them."""
    out = []
    for k in kinds or gen.ALL:
        for s in range(per_kind):
            out.append(dict(extra, gen=k, seed='%s.%s' % (seed, s)))
    return out


def thousand_jobs(seed, tier, quick=1, thorough=10):
    """layouts of more than a thousand sites"""
    return [dict(gen='thousand', seed='%s.t%s' % (seed, k), weight=1200, limit=240) for k in range(quick if tier == 'quick' else thorough)]


def rounded_apart(x, scale):
    """Whether rounding (in the last of sixty digits) put an edge without length into this vertex, which then has another end."""
    return any(0 < max(abs(e.twin.origin.xd - x.xd), abs(e.twin.origin.yd - x.yd)) < Decimal(scale) * Decimal('1e-30') for e in x.connected_edges)


# fixed layouts that are degenerate in a particular way (several were wrong before the fix: commits)
FIXED = [
    ('F-negbox', [(-100, -100), (0, -100), (0, 0), (-100, 0)], [(-50, -50), (-40, -49)]),
    ('F-wide', [(0, 0), (1000, 0), (1000, 10), (0, 10)], [(100, 5), (500, 6), (900, 4)]),
    ('F-grid1', [(0, 0), (100, 0), (100, 100), (0, 100)],
     [('3.0256', '4.7102'), ('3.0256', '10.2'), ('8.5', '4.7102'), ('8.5', '10.2')]),
    ('F-righttri', [(0, 0), (100, 0), (0, 100)], [(20, 20), (30, 50), (60, 10)]),
    ('F-cocirc', [(0, 0), (10, 0), (10, 10), (0, 10)], [(2, 2), (8, 2), (2, 8), (8, 8)]),
    ('F-grid2', [(0, 0), (10, 0), (10, 10), (0, 10)], [(1, 1), (4, 1), (7, 1), (1, 4), (4, 4), (7, 4), (1, 7), (4, 7), (7, 7)]),
    ('F-corner', [(0, 0), (4, 0), (4, 4), (0, 4)], [(2, 3), (1, 1), (1, 2)]),
    ('F-one', [(0, 0), (10, 0), (10, 10), (0, 10)], [(3, 4)]),
    ('F-level2', [(0, 0), (10, 0), (10, 10), (0, 10)], [(3, 4), (8, 4)]),
    ('F-upright2', [(0, 0), (10, 0), (10, 10), (0, 10)], [(4, 3), (4, 8)]),
    ('F-level3', [(0, 0), (10, 0), (10, 10), (0, 10)], [(8, 4), (3, 4), (5, 4)]),
    ('F-diag', [(0, 0), (10, 0), (10, 10), (0, 10)], [(2, 2), (5, 5), (8, 8)]),
    ('F-readme', [('2.5', 10), (5, 10), (10, 5), (10, '2.5'), (5, 0), ('2.5', 0), (0, '2.5'), (0, 5)],
     [('2.5', '2.5'), (4, '7.5'), ('7.5', '2.5'), (6, '7.5'), (4, 4), (3, 3), (6, 3)]),
    ('F-sqrt', [('-.137', '-.3311'), ('20.1713', '-.3311'), ('20.1713', '20.2719'), ('-.137', '20.2719')],
     [(12, 4), (5, 4), (5, 1), (8, 0), (0, 2), (17, 12), (4, 18), (9, 11), (12, 9), (14, 6), (9, 10), (12, 14), (14, 8),
      (2, 0), (8, 16), (19, 13), (5, 20), (1, 10), (6, 0), (6, 3)]),
    ('F-maxy0', [(-15, -32), (0, -32), (0, -16), (-15, -16)], [(-2, -16), (-5, -16)]),
    ('F-nearlevel', [(0, 0), (100, 0), (100, 100), (0, 100)], [(20, 50), (80, '50.0000001')]),
    ('F-floatline', [(-1, -1), (1, -1), (1, 1), (-1, 1)],
     [(0, 0), ('.1', '.010000000000000002'), ('.2', '.020000000000000004'), ('.3', '.03'), ('.4', '.04000000000000001')]),
    ('F-floatstar', [(-2, -2), (2, -2), (2, 2), (-2, 2)],
     [('6.123233995736766e-17', 1), ('-1.8369701987210297e-16', -1), (0, 0), ('7.960204194457797e-17', '1.3'),
      ('-2.3880612583373386e-16', '-1.3')]),
    ('F-octagon', [(0, 0), (20, 0), (20, 20), (0, 20)],
     [(15, 10), (14, 13), (13, 14), (10, 15), (7, 14), (6, 13), (5, 10), (6, 7), (7, 6), (10, 5), (13, 6), (14, 7)]),
]


def fixed_jobs(**extra):
    return [dict(extra, name=n, poly=[list(p) for p in P], sites=[list(s) for s in S]) for n, P, S in FIXED]


def build(poly, sites, flag=True, bounding=None, observers=()):
    f = api()
    b = bounding if bounding is not None else f.Polygon(poly)
    v = f.Voronoi(b, remove_zero_length_edges=flag)
    for o in observers:
        v.attach_observer(o)
    v.create_diagram(sites)
    return v


def half_edges(v):
    out = []
    for e in v.edges:
        out.append(e)
        out.append(e.twin)
    return out


def walk(site, limit):
    """The half-edges around a site, or a Violation if following next does not lead back to the first edge."""
    e = site.first_edge
    if e is None:
        raise Violation('site %s has no border' % coords(site))
    out = [e]
    while True:
        e = e.next
        if e is None:
            raise Violation('the border of site %s is open' % coords(site))
        if e is out[0]:
            return out
        out.append(e)
        if len(out) > limit:
            raise Violation('the border of site %s does not lead back to its first edge' % coords(site))


def coords(p):
    try:
        return '(%s, %s)' % (p.xd, p.yd)
    except Exception:
        return repr(p)


def xy(p):
    return (float(p.xd), float(p.yd))


def exy(p):
    return (F(p.xd), F(p.yd))


def cell_points(v):
    """For every site in input order, the exact positions of the corners of its cell along the border."""
    limit = 2 * len(v.edges) + 4
    return [[exy(e.origin) for e in walk(s, limit)] for s in v.sites]


def farea(P):
    s = 0.0
    if not P:
        return 0.0
    x0, y0 = P[0]
    for i in range(len(P)):
        a, b = P[i], P[(i + 1) % len(P)]
        s += (a[0] - x0) * (b[1] - y0) - (a[1] - y0) * (b[0] - x0)
    return s / 2


def dist(a, b):
    return math.hypot(a[0] - b[0], a[1] - b[1])


def seg_dist(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    L2 = dx * dx + dy * dy
    if L2 == 0:
        return dist(p, a)
    t = max(0, min(1, ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / L2))
    return math.hypot(a[0] + t * dx - p[0], a[1] + t * dy - p[1])


def poly_dist(p, P):
    """Distance of a point from the outline of a polygon."""
    return min(seg_dist(p, P[i], P[(i + 1) % len(P)]) for i in range(len(P)))


def compare_cells(got, want, tol):
    """Whether two polygons (lists of float points) are the same up to tol: every corner of one on the outline of the
    other and the same area. Returns a message or None."""
    if len(got) < 3:
        return 'has only %d corners' % len(got)
    per = sum(dist(want[i], want[i - 1]) for i in range(len(want)))
    ga, wa = abs(farea(got)), abs(farea(want))
    if abs(ga - wa) > tol * (per + 8 * tol) + 1e-12 * wa:
        return 'has area %r instead of %r' % (ga, wa)
    for p in want:
        if min(dist(p, q) for q in got) > tol and poly_dist(p, got) > tol:
            return 'misses the corner %r' % (p,)
    for p in got:
        if poly_dist(p, want) > tol:
            return 'has a corner %r that is not on the border' % (p,)
    return None


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as s:
        yield s


def signature(o):
    """Combinatorial shape of an exact diagram, for counting distinct cases."""
    return (len(o.poly), tuple(sorted(len(c) for c in o.cells)), len(o.adj), len(o.interior), tuple(sorted(o.kinds)))


def judge(job, mon, need='wellposed'):
    """(poly, sites, oracle) of a job, or None (counted) if the input is outside the domain that the check judges."""
    poly, sites = expand(job)
    o = Oracle(poly, sites)
    if not getattr(o, need) and 'known' not in job:
        mon.skip('vertex on the border' if {'vonb', 'nearvonb'} & o.kinds else
                 'ill-conditioned' if not o.wellposed else 'nearly coinciding vertices')
        return None
    mon.see('diagrams')
    for k in o.kinds:
        mon.see('diagrams with ' + k)
    mon.shape(signature(o))
    return poly, sites, o


def index_of(v):
    """id of a site -> position in the input; -1 stands for 'no site'."""
    ix = {id(s): i for i, s in enumerate(v.sites)}
    ix[id(None)] = -1
    return ix


def edge_len(e):
    return dist(xy(e.origin), xy(e.twin.origin))


class Nearest:
    """Nearest of a fixed set of points."""

    def __init__(self, pts):
        self.a = np.array(pts, float).reshape(-1, 2)

    def __call__(self, p):
        d = np.hypot(self.a[:, 0] - p[0], self.a[:, 1] - p[1])
        i = int(d.argmin())
        return i, float(d[i])

    def within(self, p, r):
        d = np.hypot(self.a[:, 0] - p[0], self.a[:, 1] - p[1])
        return [int(i) for i in np.nonzero(d <= r)[0]]
