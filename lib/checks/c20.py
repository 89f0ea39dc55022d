"""C20: pictures and texts of trees mirror the tree."""
import random
import re
from lib.diagram import *
from lib import steps, trees

RULE = ('Every step of constructions of the layout generators, observed by TreeObservers (graph and text, with and without '
        'callback) and drawn by TreeVisualizer, and random trees of any shape; the dot source and the text are parsed back and '
        'compared with the tree. Distinct: by shape of the tree.')
ASSUMPTIONS = ['labels of hand-made trees contain no line breaks, quotes or backslashes']
MUST_SEE = ['graphs of observers', 'texts of observers', 'texts printed', 'graphs of the visualizer', 'texts of nodes',
            'hand-made trees', 'single children', 'trees of 20 or more nodes', 'results without steps']
KINDS = ['box', 'conv', 'intgrid', 'mirror', 'samey', 'grid', 'toprow', 'hex', 'circle', 'few', 'collinear', 'vrows', 'tiedcircles',
         'floatline', 'cluster']


def jobs(seed, tier):
    q = tier == 'quick'
    return gen_jobs(seed, 4 if q else 60, KINDS) + [{'shape': '%s.%s' % (seed, k)} for k in range(60 if q else 1500)]


TOKEN = r'("(?:[^"\\]|\\.)*"|[^\s"\[\]=;>]+?)'
NODE = re.compile(r'^\s*' + TOKEN + r'\s*\[(.*)\]\s*;?\s*$')
BARE = re.compile(r'^\s*' + TOKEN + r'\s*;?\s*$')
EDGE = re.compile(r'^\s*' + TOKEN + r'(?::\w+)?\s*->\s*' + TOKEN + r'(?::\w+)?\s*(\[.*\])?\s*;?\s*$')
LABEL = re.compile(r'\blabel=("(?:[^"\\]|\\.)*"|[^\s,\]]+)')


def unquote(s):
    if s.startswith('"'):
        return s[1:-1].replace('\\"', '"').replace('\\\\', '\\')
    return s


def parse(dot):
    """(labels of the nodes in order, children of each node in order) of a dot source"""
    labels, children = {}, {}
    for line in dot.source.split('\n'):
        t = line.strip()
        if not t or t.startswith('//') or t.startswith('digraph') or t in '{}':
            continue
        m = EDGE.match(line)
        if m:
            children.setdefault(unquote(m.group(1)), []).append(unquote(m.group(2)))
            continue
        m = NODE.match(line)
        if m and unquote(m.group(1)) not in ('node', 'edge', 'graph'):
            lab = LABEL.search(m.group(2))
            n = unquote(m.group(1))
            if n in labels:
                raise Violation('a node occurs twice in the graph')
            labels[n] = unquote(lab.group(1)) if lab else n
            continue
        if not BARE.match(line) and not m:
            raise Violation('the line %r of the graph is not understood' % line)
    return labels, children


def algorithm_label(n):
    """The label of a node of the status tree, from what it stores."""
    if n.left is None and n.right is None:
        return str(n.data.origin.name)
    p, q = n.data.breakpoint
    return '%s,%s' % (p.name, q.name)


class Trees:
    def __init__(self, mon):
        self.mon = mon

    def expected(self, root, label):
        all_ = trees.nodes(root)
        want = [(d, label(n)) for n, d in all_]
        kids = {id(n): [c for c in (n.left, n.right) if c is not None] for n, _ in all_}
        if len(all_) >= 20:
            self.mon.see('trees of 20 or more nodes')
        if any(len(k) == 1 for k in kids.values()):
            self.mon.see('single children')
        self.mon.shape(tuple(d for d, _ in want))
        return all_, want, kids

    def graph(self, dot, root, label, what):
        mon = self.mon
        labels, children = parse(dot)
        all_, want, kids = self.expected(root, label)
        if not mon.check(len(labels) == len(all_), '%s has %d nodes instead of %d', what, len(labels), len(all_)):
            return
        below = [c for cs in children.values() for c in cs]
        mon.check(len(below) == len(set(below)) == len(all_) - 1 and set(below) <= set(labels) and set(children) <= set(labels),
                  '%s has %d edges, which is not a tree of %d nodes', what, len(below), len(all_))
        top = [n for n in labels if n not in set(below)]
        if mon.violations or len(top) != 1:
            mon.check(len(top) == 1, '%s has %d roots', what, len(top))
            return
        stack = [(top[0], root)]
        while stack:
            g, n = stack.pop()
            mon.check(labels[g] == label(n), '%s has the label %r instead of %r', what, labels[g], label(n))
            gk = children.get(g, [])
            if not mon.check(len(gk) == len(kids[id(n)]), '%s: the node %s has %d children instead of %d', what, labels[g], len(gk),
                             len(kids[id(n)])):
                return
            stack += list(zip(gk, kids[id(n)]))

    def text(self, text, root, label, what):
        mon = self.mon
        all_, want, kids = self.expected(root, label)
        lines = [l for l in text.split('\n') if l.strip()]
        got = []
        for l in lines:
            body = l.lstrip(' ')
            got.append((len(l) - len(body), body.rstrip()))
        unit = min((i for i, _ in got if i), default=4)
        want = want[::-1]
        mon.check([(i / unit, t) for i, t in got] == [(d, l) for d, l in want], '%s is %r instead of %s', what, got[:12], want[:12])


def run(job, mon):
    if 'shape' in job:
        return run_shape(job, mon)
    from foronoi.visualization.tree_visualizer import TreeVisualizer
    f = api()
    poly, sites = expand(job)
    o = Oracle(poly, sites)
    if not o.wellposed:
        mon.skip('vertex on the border')
        return
    mon.see('diagrams')
    rng = random.Random('trees' + job['seed'] + job['gen'])
    t = Trees(mon)
    v = f.Voronoi(f.Polygon(poly))
    root = lambda: v.status_tree
    kind = rng.choice(['steps', 'result'])
    st = kind == 'steps'
    calls = []

    def on_graph(observer, dot):
        calls.append('g')
        t.graph(dot, root(), algorithm_label, 'the graph of an observer')
        mon.see('graphs of observers')
        if not st:
            mon.see('results without steps')

    def on_text(text):
        calls.append('t')
        t.text(text, root(), algorithm_label, 'the text of an observer')
        mon.see('texts of observers')
    v.attach_observer(f.TreeObserver(visualize_steps=st, callback=on_graph))
    v.attach_observer(f.TreeObserver(visualize_steps=st, text_based=True, callback=on_text))
    snaps = []

    class Snap:
        """What a printing observer should print: the tree at that moment."""

    def step(a):
        if rng.random() < .3:
            t.graph(TreeVisualizer().plot(a.status_tree), a.status_tree, algorithm_label, 'the graph of the visualizer')
            mon.see('graphs of the visualizer')
        if rng.random() < .3:
            # of a part of the tree, too
            n = rng.choice(trees.nodes(a.status_tree))[0]
            t.text(n.visualize(), n, algorithm_label, 'the text of a node')
            t.graph(TreeVisualizer().plot(n), n, algorithm_label, 'the graph of a node')
            mon.see('texts of nodes')
        if rng.random() < .3:
            p = f.TreeObserver(text_based=True)
            from foronoi.observers.message import Message
            with quiet() as out:
                p.update(a, Message.STEP_FINISHED)
            t.text(out.getvalue(), a.status_tree, algorithm_label, 'the printed text')
            mon.see('texts printed')
    v.attach_observer(steps.make_monitor(step))
    v.create_diagram(sites)
    mon.check(calls.count('g') and calls.count('t'), 'an observer does not call back')


def run_shape(job, mon):
    from foronoi.visualization.tree_visualizer import TreeVisualizer
    from foronoi.observers.message import Message
    from foronoi.tree.node import Node
    f = api()
    rng = random.Random('shape' + job['shape'])
    n = rng.choice([1, 2, 3, 5, 8, 13, 30, 80])
    keys = rng.choice([lambda: rng.randint(-50, 50), lambda: round(rng.uniform(-9, 9), 3), lambda: Decimal(rng.randint(0, 9)) / 4,
                       lambda: rng.choice(['a', 'left node', 'x->y', 'Ä', '1,2', 'n[0]', 'a;b', '{c}', 'graph', '-3'])])
    root = Node(keys())
    all_ = [root]
    style = rng.choice(['any', 'left', 'right', 'deep'])
    while len(all_) < n:
        p = all_[-1] if style in ('left', 'right') or rng.random() < .5 and style == 'deep' else rng.choice(all_)
        free = [s for s in ('left', 'right') if getattr(p, s) is None]
        if style in ('left', 'right'):
            free = [style]
        if not free:
            continue
        c = Node(keys())
        setattr(p, rng.choice(free), c)
        all_.append(c)
    h = trees.heights(root)
    mon.see('hand-made trees')
    t = Trees(mon)

    def label(node):
        return '%s(%d)' % (node.data, h[id(node)])
    t.text(root.visualize(), root, label, 'the text of a hand-made tree')
    t.graph(TreeVisualizer().plot(root), root, label, 'the graph of a hand-made tree')
    mon.see('graphs of the visualizer')
    mon.see('texts of nodes')
    sub = rng.choice(all_)
    t.text(sub.visualize(), sub, label, 'the text of a part of a hand-made tree')
    t.graph(TreeVisualizer().plot(sub), sub, label, 'the graph of a part of a hand-made tree')
