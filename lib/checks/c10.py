"""C10: the status structure is a well-formed balanced tree after every step."""
import math
import random
from lib.diagram import *
from lib import steps
from lib.gen import box, uniform_in

RULE = ('Layout generators, fixed degenerate layouts, and rows, columns and parabolas of many sites that make the tree grow on '
        'one side; after every step an observer checks every node of the status tree (for large layouts, at sampled steps). '
        'Distinct: by the shape of the tree.')
ASSUMPTIONS = ['sites are distinct and inside or on a convex polygon']
MUST_SEE = ['steps', 'internal nodes', 'leaves', 'trees of 100 or more arcs']
LIMIT = 120

LARGE = ['row', 'rowdown', 'column', 'parabola', 'vee', 'uniform', 'rows']


def large(kind, n, seed):
    rng = random.Random('%s/%s/%s' % (kind, n, seed))
    P = box(-1, -1, 1001, 1001)
    if kind == 'row':
        S = [(1000 * (k + .5) / n, 500) for k in range(n)]
    elif kind == 'rowdown':        # an almost level row: always the same end of the beach line
        S = [(1000 * (k + .5) / n, 900 - k * 500 / n) for k in range(n)]
    elif kind == 'column':
        S = [(500, 1000 * (k + .5) / n) for k in range(n)]
    elif kind == 'parabola':
        S = [(1000 * (k + .5) / n, 1000 * ((k + .5) / n) ** 2) for k in range(n)]
    elif kind == 'vee':
        S = [(500 + (-1) ** k * 480 * k / n, 10 + 900 * k / n) for k in range(n)]
    elif kind == 'rows':
        S = [(1000 * (k + .5) / (n // 4), y) for k in range(n // 4) for y in (100, 350, 600, 850)]
    else:
        S = uniform_in(rng, P, n, 10 * n)
    if kind in ('row', 'rows', 'column'):
        S = [(round(x, 4), round(y, 4)) for x, y in S]
    if rng.random() < .5:
        S = [(1000 - x, y) for x, y in S]
    rng.shuffle(S)
    return P, S


def jobs(seed, tier):
    out = fixed_jobs() + gen_jobs(seed, 10 if tier == 'quick' else 220) + thousand_jobs(seed, tier)
    for k in LARGE:
        for n, r in ([(160, 1), (400, 1)] if tier == 'quick' else [(100, 5), (500, 3), (2000, 1)]):
            out += [{'large': k, 'n': n, 'seed': '%s.%s' % (seed, i), 'weight': n} for i in range(r)]
    return out


def describe(job):
    from lib import diagram
    return job if 'large' in job else diagram.describe(job)


def verify(root, mon, limit, l=''):
    """Every node of the tree; returns the leaves and the height."""
    seq = steps.in_order(root, limit)
    mon.check(root.parent is None, 'after y=%s the root has a parent', l)
    h = {}
    for n, d in sorted(seq, key=lambda x: -x[1]):
        a, b = n.left, n.right
        if (a is None) != (b is None):
            mon.bad('after y=%s a node has a single child' % l)
            return None
        for ch in (a, b):
            if ch is not None:
                mon.check(ch.parent is n, 'after y=%s a child does not know its parent', l)
        ha, hb = h.get(id(a), 0), h.get(id(b), 0)
        h[id(n)] = 1 + max(ha, hb)
        mon.check(n.height == h[id(n)], 'after y=%s a node of height %s says that its height is %s', l, h[id(n)], n.height)
        mon.check(abs(ha - hb) <= 1, 'after y=%s the subtrees of a node have the heights %s and %s', l, ha, hb)
        if mon.violations:
            return None
    leaf = []
    for k, (n, d) in enumerate(seq):
        if n.left is None:
            mon.check(k % 2 == 0, 'arcs and breakpoints do not alternate')
            mon.check(n.is_leaf(), 'a leaf says that it is none')
            mon.check(hasattr(n.data, 'origin'), 'a leaf is not an arc')
            leaf.append(n)
        else:
            mon.check(k % 2 == 1, 'arcs and breakpoints do not alternate')
            if mon.violations:
                return None
            p, q = n.data.breakpoint
            x, y = seq[k - 1][0].data.origin, seq[k + 1][0].data.origin
            mon.check(p is x and q is y, 'after y=%s the breakpoint %s is between the arcs of %s and %s', l, (p, q), x, y)
            mon.see('internal nodes')
    mon.see('leaves', len(leaf))
    if len(leaf) >= 100:
        mon.see('trees of 100 or more arcs')
    H = h[id(root)]
    mon.check(H <= 1.4405 * math.log2(len(leaf) + 1) + 1, 'a tree of %d arcs has the height %d', len(leaf), H)
    mon.top('height', H)
    mon.top('arcs', len(leaf))
    return leaf


def run(job, mon):
    if 'large' in job:
        poly, sites = large(job['large'], job['n'], job['seed'])
        every = max(1, job['n'] // 60)
    else:
        poly, sites = expand(job)
        every = 1
        mon.see('diagrams')
    count = [0]
    n = len(sites)

    def step(a):
        count[0] += 1
        # large ones: the whole tree at sampled steps
        if every > 1 and count[0] % every:
            return
        mon.see('steps')
        leaf = verify(a.status_tree, mon, 20 * n + 20, a.sweep_line)
        if mon.violations:
            raise Violation(mon.violations.pop())
        mon.shape(tuple(d for _, d in steps.in_order(a.status_tree, 20 * n + 20)))
        # left and right neighbours
        for k in (range(len(leaf)) if every == 1 else ()):
            want = leaf[k + 1] if k + 1 < len(leaf) else None
            mon.check(leaf[k].successor is want, 'the successor of arc %d of %d is another node', k, len(leaf))
            want = leaf[k - 1] if k else None
            mon.check(leaf[k].predecessor is want, 'the predecessor of arc %d of %d is another node', k, len(leaf))
    steps.sweep_only(poly, sites, step)
