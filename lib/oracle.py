"""Reference answers in exact rational arithmetic, written from the definition of a Voronoi diagram (intersection of
half-planes), independently of the sweep-line algorithm under test."""
import math
from decimal import Decimal
from fractions import Fraction as F


def fr(v):
    """The exact number that an input value denotes (a float denotes its shortest decimal, as the package documents)."""
    if isinstance(v, F):
        return v
    return F(Decimal(str(v)))


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def hull(points, keep_collinear=False):
    """Convex hull, counter-clockwise."""
    pts = sorted(set(points))
    if len(pts) < 3:
        return pts

    def half(ps):
        h = []
        for p in ps:
            while len(h) >= 2 and (cross(h[-2], h[-1], p) < 0 or (not keep_collinear and cross(h[-2], h[-1], p) == 0)):
                h.pop()
            h.append(p)
        return h
    a, b = half(pts), half(pts[::-1])
    return a[:-1] + b[:-1]


def area2(P):
    s = 0
    for i in range(len(P)):
        a, b = P[i], P[(i + 1) % len(P)]
        s += a[0] * b[1] - a[1] * b[0]
    return s


def area(P):
    return abs(area2(P)) / 2


def in_convex(poly, p, strict=False):
    """poly counter-clockwise"""
    for i in range(len(poly)):
        c = cross(poly[i], poly[(i + 1) % len(poly)], p)
        if c < 0 or (strict and c == 0):
            return False
    return True


def clip(cellp, a, b, c, label):
    """cellp: list of (point, label of the edge from this point to the next). Keep a*x + b*y <= c."""
    d = [a * p[0][0] + b * p[0][1] - c for p in cellp]
    if all(x <= 0 for x in d):
        return cellp
    out = []
    n = len(cellp)
    for i in range(n):
        j = i + 1 if i + 1 < n else 0
        (p, lab), q = cellp[i], cellp[j][0]
        dp, dq = d[i], d[j]
        if dp <= 0:
            if dp == 0 and dq > 0:
                out.append((p, label))       # leaves through the vertex itself
            elif dp < 0 and dq > 0:
                out.append((p, lab))
                t = dp / (dp - dq)
                out.append(((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])), label))
            else:
                out.append((p, lab))
        elif dq < 0:
            t = dp / (dp - dq)
            out.append(((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])), lab))
    return out


class Oracle:
    """Exact Voronoi diagram of `sites` in the convex polygon `poly` (both lists of pairs of numbers)."""

    def __init__(self, poly, sites):
        self.poly = hull([(fr(x), fr(y)) for x, y in poly], keep_collinear=True)
        self.sites = [(fr(x), fr(y)) for x, y in sites]
        self.fpoly = [(float(x), float(y)) for x, y in self.poly]
        self.fsites = [(float(x), float(y)) for x, y in self.sites]
        n = len(self.sites)
        base = [(p, ('b', k)) for k, p in enumerate(self.poly)]
        xs = [p[0] for p in self.fpoly]
        ys = [p[1] for p in self.fpoly]
        self.w, self.h = max(xs) - min(xs), max(ys) - min(ys)
        self.scale = self.w + self.h
        self.maxabs = max(map(abs, xs + ys))
        self.cells = []
        for i in range(n):
            xi, yi = self.sites[i]
            fx, fy = self.fsites[i]
            order = sorted((j for j in range(n) if j != i),
                           key=lambda j: (self.fsites[j][0] - fx) ** 2 + (self.fsites[j][1] - fy) ** 2)
            P = base
            rad = None
            for j in order:
                if rad is None:
                    rad = max(math.hypot(float(p[0]) - fx, float(p[1]) - fy) for p, _ in P) if P else 0
                if math.hypot(self.fsites[j][0] - fx, self.fsites[j][1] - fy) > 2 * rad * (1 + 1e-9) + 1e-300:
                    break
                xj, yj = self.sites[j]
                Q = clip(P, 2 * (xj - xi), 2 * (yj - yi), xj * xj + yj * yj - xi * xi - yi * yi, ('s', j))
                if Q is not P:
                    P, rad = Q, None
                if not P:
                    break
            # drop repeated points
            R = []
            for k in range(len(P)):
                if P[k][0] != P[(k + 1) % len(P)][0]:
                    R.append(P[k])
            self.cells.append(R)
        self.areas = [area([p for p, _ in c]) for c in self.cells]
        self.total = area(self.poly)
        self.at = {}                       # exact vertex -> cells that have it as a corner
        for i, c in enumerate(self.cells):
            for p, _ in c:
                self.at.setdefault(p, set()).add(i)
        self.corners = set(self.poly)
        self.adj = {}                      # frozenset{i, j} -> (p, q): the common border of positive length
        for i, c in enumerate(self.cells):
            for k, (p, lab) in enumerate(c):
                if lab[0] == 's':
                    q = c[(k + 1) % len(c)][0]
                    self.adj.setdefault(frozenset((i, lab[1])), tuple(sorted((p, q))))
        self._classify()

    def side_dist(self, p, k):
        a, b = self.fpoly[k], self.fpoly[(k + 1) % len(self.fpoly)]
        L = math.hypot(b[0] - a[0], b[1] - a[1])
        return abs((b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])) / L

    def on_side(self, p, k):
        return cross(self.poly[k], self.poly[(k + 1) % len(self.poly)], p) == 0

    def _classify(self):
        kinds = set()
        eps = 1e-8 * self.scale
        m = len(self.poly)
        self.boundary, self.interior = [], []
        near = False
        for p, cs in self.at.items():
            on = any(self.on_side(p, k) for k in range(m))
            (self.boundary if on else self.interior).append(p)
            if on:
                if len(cs) >= 3:
                    kinds.add('vonb')
                elif p in self.corners and len(cs) == 2:
                    kinds.add('corner')
                if p not in self.corners and len(cs) == 1:
                    near = True                  # cannot happen in exact arithmetic
            else:
                fp = (float(p[0]), float(p[1]))
                if min(self.side_dist(fp, k) for k in range(m)) < eps:
                    kinds.add('nearvonb')
                if len(cs) >= 4:
                    kinds.add('cocircular')
        # distinct vertices that floats can hardly tell apart
        pts = sorted((float(p[0]), float(p[1])) for p in self.at)
        for i in range(len(pts)):
            j = i + 1
            while j < len(pts) and pts[j][0] - pts[i][0] < eps:
                if abs(pts[j][1] - pts[i][1]) < eps:
                    near = True
                j += 1
        if near:
            kinds.add('near')
            # two crossings that nearly coincide: a Voronoi vertex just outside the border
            bp = sorted((float(p[0]), float(p[1])) for p in self.boundary)
            for i in range(len(bp)):
                for q in bp[i + 1:]:
                    if q[0] - bp[i][0] >= eps:
                        break
                    if abs(q[1] - bp[i][1]) < eps:
                        kinds.add('nearvonb')
        self.kinds = kinds
        self.tol = self._tolerance()
        self.fcells = [[(float(p[0]), float(p[1])) for p, _ in c] for c in self.cells]

    def _tolerance(self):
        """How far a float computation of clipped edges may be off: the ends of an edge before clipping can be far away
        (nearly collinear sites, nearly level pairs), and the clipping works in floats."""
        R = self.maxabs
        D = 5 * self.scale
        fs = self.fsites
        n = len(fs)
        for pair in self.adj:
            i, j = tuple(pair)
            xi, yi = fs[i]
            xj, yj = fs[j]
            dx, dy = -(yj - yi), xj - xi
            mx, my = (xi + xj) / 2, (yi + yj) / 2
            dd = math.hypot(dx, dy)
            lo, hi = -math.inf, math.inf
            for k in range(n):
                if k == i or k == j:
                    continue
                xk, yk = fs[k]
                a, b = 2 * (xk - xi), 2 * (yk - yi)
                den = a * dx + b * dy
                num = (xk - mx) ** 2 + (yk - my) ** 2 - (xi - mx) ** 2 - (yi - my) ** 2
                if abs(den) < 1e-14 * (abs(a) + abs(b)) * dd:
                    continue
                t = num / den
                if den > 0:
                    hi = min(hi, t)
                else:
                    lo = max(lo, t)
            for t in (lo, hi):
                if math.isinf(t):
                    e = abs(float(self.sites[i][1] - self.sites[j][1]))
                    if e > 0:
                        R = max(R, D * (dd / e) ** 2)
                else:
                    R = max(R, math.hypot(mx + t * dx, my + t * dy))
        # an end that is very far away is replaced by a nearer point on the same line before clipping
        R = min(R, 1100 * self.scale + self.maxabs)
        self.R = R
        # where an edge crosses a side at a tiny angle, an error moves the crossing along the side
        amp = 1
        m = len(self.poly)
        for p in self.boundary:
            cs = sorted(self.at[p])
            if len(cs) != 2:
                continue
            a, b = fs[cs[0]], fs[cs[1]]
            d = (b[0] - a[0], b[1] - a[1])
            for k in range(m):
                if self.on_side(p, k):
                    q, r = self.fpoly[k], self.fpoly[(k + 1) % m]
                    s = (r[0] - q[0], r[1] - q[1])
                    sine = abs(d[0] * s[0] + d[1] * s[1]) / (math.hypot(*d) * math.hypot(*s) or 1)
                    amp = max(amp, 1 / max(sine, 1e-12))
        self.amp = amp
        return 1e-9 * self.scale + 64 * 2.3e-16 * max(R, self.maxabs) * (1 if amp < 10 else amp)

    @property
    def wellposed(self):
        """Whether the input is in the domain in which the checks judge the geometry."""
        return not ({'vonb', 'nearvonb'} & self.kinds) and self.tol < 1e-6 * self.scale

    @property
    def structural(self):
        """Whether the combinatorial structure can be compared as well."""
        return self.wellposed and 'near' not in self.kinds

    def border_walk(self):
        """The border vertices in counter-clockwise order, with the cell of the stretch that starts there."""
        out = []
        for k in range(len(self.poly)):
            a, b = self.poly[k], self.poly[(k + 1) % len(self.poly)]
            segs = []
            for i, c in enumerate(self.cells):
                for t, (p, lab) in enumerate(c):
                    if lab == ('b', k):
                        q = c[(t + 1) % len(c)][0]
                        segs.append((p, q, i))
            segs.sort(key=lambda s: (s[0][0] - a[0]) * (b[0] - a[0]) + (s[0][1] - a[1]) * (b[1] - a[1]))
            out += segs
        return out
