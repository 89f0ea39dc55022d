"""C13: observing does not influence the diagram, and observers call back exactly as often as asked."""
import contextlib
import copy
import random
from lib.diagram import *
from lib import steps

RULE = ('Layout generators x random options of the provided observers (tree as graph or text, steps / before clipping / result, '
        'settings, canvas offset, figure size, debug, several at once, with or without callback): the diagram is compared '
        'exactly with an unobserved one, and the callbacks are counted. Distinct: by options and number of events.')
ASSUMPTIONS = ['no Voronoi vertex on the border of the polygon']
MUST_SEE = ['figures shown', 'trees shown', 'tree callbacks', 'text callbacks', 'figure callbacks', 'debug callbacks', 'printed', 'diagrams compared',
            'figures before clipping', 'observers used again']
KINDS = ['box', 'conv', 'intgrid', 'mirror', 'samey', 'hex', 'boxneg', 'few', 'collinear', 'tri', 'grid', 'edgecluster', 'boxfar',
         'circle', 'lattice', 'onborder']


def jobs(seed, tier):
    out = []
    for j in gen_jobs(seed, 6 if tier == 'quick' else 90, KINDS):
        out.append(j)
    return out


def full(v):
    """Everything about a finished diagram, exactly."""
    ix = index_of(v)
    vx = {}
    edges = []
    for e in v.edges:
        edges.append((ix[id(e.incident_point)], ix[id(e.twin.incident_point)],
                      e.origin.xd, e.origin.yd, e.twin.origin.xd, e.twin.origin.yd))
    lim = 2 * len(edges) + 4
    cells = [[(e.origin.xd, e.origin.yd, ix[id(e.twin.incident_point)]) for e in (walk(s, lim) if s.first_edge is not None else ())] for s in v.sites]
    verts = sorted((x.xd, x.yd, len(x.connected_edges)) for x in v.vertices)
    return {'edges': edges, 'cells': cells, 'vertices': verts, 'sites': [(s.xd, s.yd, s.name) for s in v.sites]}


@contextlib.contextmanager
def windows(shown):
    """Stand-ins that record what would be shown in a window: figures (their size) and graphs (their source)."""
    import graphviz
    import matplotlib.pyplot as plt
    old = plt.show, graphviz.Digraph.__dict__.get('render'), graphviz.Digraph.__dict__.get('view'), plt.Figure.__dict__.get('show')

    def show(*a, **k):
        shown.get('figure', []).append(tuple(plt.gcf().get_size_inches()) if plt.get_fignums() else None)

    def render(self, *a, view=False, **k):
        if view:
            shown.get('tree', []).append(self.source)
        return 'tree.gv.png'

    def see(self, *a, **k):
        return render(self, view=True)
    plt.show, graphviz.Digraph.render, graphviz.Digraph.view = show, render, see
    plt.Figure.show = lambda self, *a, **k: show()
    try:
        yield
    finally:
        plt.show = old[0]
        for c, n, x in ((graphviz.Digraph, 'render', old[1]), (graphviz.Digraph, 'view', old[2]), (plt.Figure, 'show', old[3])):
            if x is None:
                delattr(c, n)
            else:
                setattr(c, n, x)


def run(job, mon):
    import matplotlib
    import matplotlib.pyplot as plt
    from foronoi.observers.message import Message
    from foronoi.observers.observer import Observer
    f = api()
    c = judge(job, mon)
    if not c:
        return
    poly, sites, o = c
    rng = random.Random('options' + str(job['seed']) + job['gen'])
    if len(sites) > 9:
        sites = sites[:rng.randint(2, 9)]
        if not Oracle(poly, sites).wellposed:
            mon.skip('vertex on the border')
            return
    flag = rng.random() < .7
    plain = build(poly, sites, flag)
    want = full(plain)
    polygon = f.Polygon(poly)
    v = f.Voronoi(polygon, remove_zero_length_edges=flag)
    kinds = []

    class Count(Observer):
        def __init__(self):
            self.got = []

        def update(self, subject, message, **kwargs):
            self.got.append(message)
    count = Count()
    shown = {}
    attached = []

    def only(**kw):
        # what has its documented default can be left out
        defaults = dict(visualize_steps=True, visualize_before_clipping=False, visualize_result=True, text_based=False,
                        figsize=(8, 8))
        return {a: b for a, b in kw.items() if not (a in defaults and b == defaults[a] and rng.random() < .5)}
    for _ in range(rng.randint(1, 3)):
        kind = rng.choice(['tree', 'text', 'figure', 'figure', 'debug', 'print', 'printtree', 'showfigure', 'showtree'])
        st, res, before = rng.random() < .5, rng.random() < .6, rng.random() < .5
        box = {'calls': [], 'numbers': [], 'kind': kind, 'opt': (st, before, res)}
        if kind in ('showfigure', 'showtree') and any(k[0] == kind for k in kinds):
            continue  # what is shown belongs to one observer
        if kind == 'tree':
            def cb(observer, dot, box=box):
                box['calls'].append(dot)
                box['numbers'].append((observer.n_messages, observer))
            ob = f.TreeObserver(**only(visualize_steps=st, visualize_result=res, callback=cb, text_based=False))
        elif kind == 'text':
            ob = f.TreeObserver(**only(visualize_steps=st, visualize_result=res, text_based=True,
                                       callback=lambda text, box=box: box['calls'].append(text)))
        elif kind == 'figure':
            settings = rng.choice([None, {}, dict(arc_labels=True), dict(site_labels=True, edge_labels=True), dict(polygon=True),
                                   dict(arcs=True, beach_line=True), dict(triangles=True, events=True),
                                   dict(outgoing_edges=True, border_to_site=True, scale=2), dict(edges=False, vertices=False)])
            size = rng.choice([(8, 8), (3, 4), (5, 2)])
            box['settings'], box['copy'], box['size'] = settings, copy.deepcopy(settings), size

            def cb(observer, figure, box=box):
                box['calls'].append(tuple(figure.get_size_inches()))
                box['numbers'].append((observer.n_messages, observer))
                if rng.random() < .1:
                    figure.canvas.draw()
            kw = only(visualize_steps=st, visualize_before_clipping=before, visualize_result=res, callback=cb, figsize=size,
                      canvas_offset=rng.choice([1, 0, 5, .5, 2.25]))
            if settings is not None:
                kw['settings'] = settings
            ob = f.VoronoiObserver(**kw)
        elif kind == 'showfigure':
            box['size'] = rng.choice([(8, 8), (4, 3)])
            ob = f.VoronoiObserver(**only(visualize_steps=st, visualize_before_clipping=before, visualize_result=res, figsize=box['size']))
            shown['figure'] = box['calls']
        elif kind == 'showtree':
            ob = f.TreeObserver(**only(visualize_steps=st, visualize_result=res))
            shown['tree'] = box['calls']
        elif kind == 'debug':
            ob = f.DebugObserver(callback=lambda text, box=box: box['calls'].append(text))
        elif kind == 'print':
            ob = f.DebugObserver()
        else:
            ob = f.TreeObserver(**only(visualize_steps=st, visualize_result=res, text_based=True))
        v.attach_observer(ob)
        attached.append((ob, box))
        kinds.append((kind, st, before, res))
    v.attach_observer(count)
    times = rng.choice([1, 1, 2, 3])
    with quiet() as out, windows(shown):
        done = [v]
        v.create_diagram(sites)
        # observers can be used for several diagrams, the counts go on
        for _ in range(times - 1):
            if rng.random() < .7:
                v = f.Voronoi(f.Polygon(poly), remove_zero_length_edges=flag)
                for ob, box in attached:
                    v.attach_observer(ob)
                v.attach_observer(count)
            else:
                done.remove(v)
            v.create_diagram(sites)
            done.append(v)
            mon.see('observers used again', len(attached))
    plt.close('all')
    for v in done:
        got = full(v)
        for key in want:
            mon.check(got[key] == want[key], 'the %s of the diagram differ when it is observed by %s', key, kinds)
        mon.see('diagrams compared')
    nstep = sum(m == Message.STEP_FINISHED for m in count.got)
    ndebug = sum(m == Message.DEBUG for m in count.got)
    printed = 0
    for ob, box in attached:
        st, before, res = box['opt']
        k = box['kind']
        if k in ('tree', 'text', 'printtree', 'showtree'):
            msgs = [Message.STEP_FINISHED] * nstep if st else [Message.VORONOI_FINISHED] * int(res) * times
            n = len(msgs)
        elif k in ('figure', 'showfigure'):
            msgs = ([Message.STEP_FINISHED] * (nstep // times) * st + [Message.SWEEP_FINISHED] * before +
                    [Message.VORONOI_FINISHED] * res) * times
            n = len(msgs)
        else:
            n = ndebug
            msgs = None
        if k not in ('print', 'printtree'):
            mon.check(len(box['calls']) == n, '%s with options %s calls back %d times instead of %d', k, box['opt'], len(box['calls']), n)
            mon.see({'showtree': 'trees shown', 'showfigure': 'figures shown'}.get(k, k + ' callbacks'), len(box['calls']))
        else:
            printed += n
        if msgs is not None:
            mon.check(ob.n_messages == n, '%s with options %s counts %d messages instead of %d', k, box['opt'], ob.n_messages, n)
            mon.check(list(ob.messages) == msgs, '%s with options %s records the messages %s', k, box['opt'], ob.messages)
        if box['numbers']:
            mon.check([a for a, _ in box['numbers']] == list(range(n)), '%s calls back with the message numbers %s', k,
                      [a for a, _ in box['numbers']])
            mon.check(all(b is ob for _, b in box['numbers']), '%s calls back with another observer', k)
        if k == 'showfigure':
            mon.check(all(c and all(abs(a - b) < 1e-9 for a, b in zip(c, box['size'])) for c in box['calls']),
                      'a figure of size %s is shown instead of %s', box['calls'][:1], box['size'])
        if k == 'showtree':
            mon.check(all('->' in c or c.count('\n') < 5 for c in box['calls']), 'what is shown is no tree: %s', box['calls'][:1])
        if k == 'figure':
            mon.check(box['settings'] == box['copy'], 'the settings given to the observer are changed to %s', box['settings'])
            mon.check(all(abs(a - b) < 1e-9 for s in box['calls'] for a, b in zip(s, box['size'])),
                      'a figure of size %s is made instead of %s', box['calls'][:1], box['size'])
            if before:
                mon.see('figures before clipping')
        if k in ('text', 'debug'):
            mon.check(all(isinstance(t, str) and t for t in box['calls']), '%s calls back without a text', k)
    text = out.getvalue()
    if printed:
        mon.check(text.count('\n') >= printed, '%d messages are printed in %d lines', printed, text.count('\n'))
        mon.see('printed', printed)
    else:
        mon.check(text == '', 'something is printed: %r', text[:80])
    # and a diagram after that is not influenced either
    again = full(build(poly, sites, flag))
    mon.check(again == want, 'a diagram created after an observed one differs')
    mon.shape(tuple(kinds), nstep)
