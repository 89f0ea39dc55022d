"""C14: the diagram does not depend on the order in which the sites are given."""
import random
from decimal import Context
from lib.diagram import *

RULE = ('Layout generators; every layout is created in several orders (shuffled, sorted, reversed, with rows swapped) and as list '
        'of tuples, lists or array rows; the diagrams are compared through the permutation. Distinct: by combinatorial shape.')
ASSUMPTIONS = ['sites are distinct and inside or on a convex polygon', 'no Voronoi vertex on the border of the polygon']
MUST_SEE = ['orders compared', 'names checked', 'sites hardly apart', 'edges compared', 'inputs compared']


def jobs(seed, tier):
    return fixed_jobs() + gen_jobs(seed, 7 if tier == 'quick' else 150) + thousand_jobs(seed, tier) + \
        [{'close': '%s.%s' % (seed, k)} for k in range(30 if tier == 'quick' else 600)]


def pairs(v, order):
    """adjacent pairs (by original index) -> ends, and the border edges"""
    ix = index_of(v)
    back = {k: i for k, i in enumerate(order)}
    back[-1] = -1
    out = {}
    for e in v.edges:
        i, j = back[ix[id(e.incident_point)]], back[ix[id(e.twin.incident_point)]]
        out.setdefault(tuple(sorted((i, j))), []).append(tuple(sorted((xy(e.origin), xy(e.twin.origin)))))
    return out


def match(a, b, tol):
    """Whether two lists of segments are the same up to tol and up to negligible segments."""
    a = [s for s in a if dist(*s) > 4 * tol]
    b = [s for s in b if dist(*s) > 4 * tol]
    rest = list(b)
    for s in a:
        for t in rest:
            if min(max(dist(s[0], t[0]), dist(s[1], t[1])), max(dist(s[0], t[1]), dist(s[1], t[0]))) <= 2 * tol:
                rest.remove(t)
                break
        else:
            if dist(*s) > 8 * tol:
                return False
    return all(dist(*t) <= 8 * tol for t in rest)


def close(job, mon):
    """Sites that floats do not tell apart: there are as many as given, at their places, with names in sweep order."""
    rng = random.Random('close' + job['close'])
    unit = Decimal(10) ** -rng.randint(17, 27)
    wide = Context(prec=80)         # the package computes with sixty digits, which tell sites 1e-29 apart
    S = []
    while len(S) < 8:
        x, y = Decimal(rng.randint(1, 9)), Decimal(rng.randint(1, 9))
        for _ in range(rng.choice([1, 2, 2, 3])):
            p = (wide.add(x, rng.randint(-2, 2) * unit), wide.add(y, rng.randint(-2, 2) * unit))
            if p not in S:
                S.append(p)
    rank = sorted(S, key=lambda p: (p[1].copy_negate(), p[0]))
    for _ in range(3):
        given = rng.sample(S, len(S))
        v = build([(0, 0), (10, 0), (10, 10), (0, 10)], given, rng.random() < .7)
        if not mon.check(len(v.sites) == len(S), 'there are %d sites instead of %d that are %s apart', len(v.sites), len(S), unit):
            return
        for s, p in zip(v.sites, given):
            mon.check((s.xd, s.yd) == p, 'a site is (%s, %s) instead of %s', s.xd, s.yd, p)
            mon.check(s.name == rank.index(p), 'the site (%s, %s) has the name %s instead of %s', s.xd, s.yd, s.name, rank.index(p))
            mon.see('names checked')
        mon.see('sites hardly apart', len(S))
    mon.shape('close', len(S), str(unit))


def run(job, mon):
    if 'close' in job:
        return close(job, mon)
    c = judge(job, mon)
    if not c:
        return
    poly, sites, o = c
    rng = random.Random('perm' + str(job.get('seed')) + str(job.get('gen', job.get('name'))))
    n = len(sites)
    flag = rng.random() < .7
    base = build(poly, sites, flag)
    bp = pairs(base, range(n))
    near = Nearest([xy(x) for x in base.vertices])
    exact = [(fr(x), fr(y)) for x, y in sites]
    rank = sorted(range(n), key=lambda i: (-exact[i][1], exact[i][0]))
    orders = [sorted(range(n), key=lambda i: exact[i]), rank, rank[::-1]]
    orders += [rng.sample(range(n), n) for _ in range(2)]
    for k, order in enumerate(orders):
        given = [sites[i] for i in order]
        form = rng.choice(['list', 'tuple', 'lists', 'array'])
        if form == 'array' and all(isinstance(x, (int, float)) for s in sites for x in s):
            arg = np.array([[float(x), float(y)] for x, y in given])
        elif form == 'tuple':
            arg = tuple(given)
        elif form == 'lists':
            arg = [list(s) for s in given]
        else:
            arg = list(given)
        copy = arg.copy() if isinstance(arg, np.ndarray) else [tuple(s) for s in arg]
        v = build(poly, arg, flag)
        same = (arg == copy).all() if isinstance(arg, np.ndarray) else [tuple(s) for s in arg] == copy and len(arg) == len(copy)
        mon.check(bool(same), 'the list of sites given by the caller is modified')
        mon.see('inputs compared')
        if len(v.sites) != n:
            mon.bad('there are %d sites instead of %d' % (len(v.sites), n))
            return
        for j, i in enumerate(order):
            s = v.sites[j]
            # an array of floats holds the nearest floats of Decimal inputs
            w = exact[i] if form != 'array' else (fr(given[j][0]), fr(given[j][1]))
            mon.check(exy(s) == w, 'site %d is %s instead of (%s, %s)', j, coords(s), *given[j])
            mon.check(s.name == rank.index(i), 'the site (%s, %s) has the name %s instead of %d', given[j][0], given[j][1],
                      s.name, rank.index(i))
            mon.see('names checked')
        pts = cell_points(v)
        for j, i in enumerate(order):
            m = compare_cells([(float(x), float(y)) for x, y in pts[j]], o.fcells[i], o.tol)
            if m:
                mon.bad('in another order, the cell of site (%s, %s) %s' % (given[j] + (m,) if isinstance(given[j], tuple) else (given[j], '', m)))
        vp = pairs(v, order)
        for key in set(vp) | set(bp):
            if not match(vp.get(key, []), bp.get(key, []), o.tol):
                mon.bad('in another order, the edges between the cells %s are %s instead of %s' % (key, vp.get(key), bp.get(key)))
                return
            mon.see('edges compared')
        for x in v.vertices:
            mon.check(near(xy(x))[1] <= 2 * o.tol, 'in another order, there is an extra vertex %s', coords(x))
        other = Nearest([xy(x) for x in v.vertices])
        for x in base.vertices:
            mon.check(other(xy(x))[1] <= 2 * o.tol, 'in another order, there is no vertex %s', coords(x))
        mon.see('orders compared')
