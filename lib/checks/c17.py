"""C17: diagrams are independent of each other and repeatable."""
import os
import pickle
import random
import signal
import struct
import sys
import threading
from lib.diagram import *
from lib.oracle import hull
from lib import steps
from lib.steps import CTX
from lib.checks.c13 import full

RULE = ('Random histories over several diagram objects that share bounding polygons: creating with the same object again, with '
        'another one in between, from within an observer of a running construction, after a construction that was aborted by an '
        'exception at some step, and in several threads at once; every diagram is compared exactly with the one that a process '
        'of its own creates, and all finished ones are read again after every operation. Distinct: by history.')
ASSUMPTIONS = ['no Voronoi vertex on the border of the polygon', 'no two constructions are clipped by one polygon object at the same time']
MUST_SEE = ['created again with the same object', 'polygon used by another object before', 'nested constructions',
            'aborted constructions', 'finished diagrams read again', 'created in threads', 'diagrams compared',
            'bounding circles', 'polygons related to another one', 'diagrams created in a process of their own']
KINDS = ['box', 'conv', 'intgrid', 'samey', 'few', 'tri', 'grid', 'edgecluster', 'boxneg', 'onborder', 'collinear', 'fewlevel',
         'mirror', 'circle', 'boxint', 'corner', 'rotgrid', 'floatline']


class Abort(Exception):
    pass


def jobs(seed, tier):
    return [{'hist': '%s.%s' % (seed, k)} for k in range(220 if tier == 'quick' else 6000)] + \
           [{'threads': '%s.%s' % (seed, k)} for k in range(6 if tier == 'quick' else 60)]


def fresh_polygon(spec):
    f = api()
    if spec['circle']:
        from foronoi.contrib import BoundingCircle
        return BoundingCircle(*spec['circle'])
    return f.Polygon(spec['poly'])


class Zygote:
    """A process that has never created a diagram; it forks for every question, so that each answer comes from a process in
    which nothing was created before."""
    one = None

    def __init__(self):
        ar, aw = os.pipe()
        br, bw = os.pipe()
        self.owner = os.getpid()
        if os.fork() == 0:
            try:
                os.close(aw)
                os.close(br)
                self.serve(os.fdopen(ar, 'rb'), os.fdopen(bw, 'wb'))
            finally:
                os._exit(0)
        os.close(ar)
        os.close(bw)
        self.w, self.r = os.fdopen(aw, 'wb'), os.fdopen(br, 'rb')

    @staticmethod
    def serve(r, w):
        signal.setitimer(signal.ITIMER_REAL, 0)
        while True:
            head = r.read(4)
            if len(head) < 4:
                return
            spec, S, flag = pickle.loads(r.read(struct.unpack('I', head)[0]))
            pid = os.fork()
            if pid == 0:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(50)
                try:
                    v = api().Voronoi(fresh_polygon(spec), remove_zero_length_edges=flag)
                    v.create_diagram(S)
                    ans = ('ok', full(v))
                except BaseException as e:
                    ans = ('error', '%s: %s' % (type(e).__name__, e))
                data = pickle.dumps(ans)
                w.write(struct.pack('I', len(data)) + data)
                w.flush()
                os._exit(0)
            if os.waitpid(pid, 0)[1]:
                data = pickle.dumps(('error', 'no answer'))
                w.write(struct.pack('I', len(data)) + data)
                w.flush()

    @classmethod
    def ask(cls, spec, S, flag):
        if cls.one is None or cls.one.owner != os.getpid():
            raise RuntimeError('the pristine process was not started')
        data = pickle.dumps(({'circle': spec['circle'], 'poly': spec['poly']}, list(S), flag))
        cls.one.w.write(struct.pack('I', len(data)) + data)
        cls.one.w.flush()
        head = cls.one.r.read(4)
        kind, ans = pickle.loads(cls.one.r.read(struct.unpack('I', head)[0]))
        if kind != 'ok':
            raise Violation('a diagram cannot be created in a process of its own: %s' % ans)
        return ans

    @classmethod
    def start(cls):
        # the first job of a process calls this before anything was created in it
        if cls.one is None or cls.one.owner != os.getpid():
            cls.one = cls()


def relative(rng, spec):
    """A polygon that has much in common with another one, to be used with the same sites."""
    P = [(fr(x), fr(y)) for x, y in spec['poly']]
    n = len(P)
    cx, cy = sum(p[0] for p in P) / n, sum(p[1] for p in P) / n
    xs, ys = [p[0] for p in P], [p[1] for p in P]
    how = rng.choice(['concentric', 'concentric', 'same extremes', 'larger', 'mirrored', 'same corner', 'same floats', 'same'])
    if how == 'concentric':
        k = rng.choice([F(1, 2), F(2), F(3, 2), F(5, 4), F(1, 4)])
        Q = [(cx + k * (x - cx), cy + k * (y - cy)) for x, y in P]
    elif how == 'same extremes':
        Q = [(min(xs), min(ys)), (max(xs), min(ys)), (max(xs), max(ys)), (min(xs), max(ys))]
    elif how == 'larger':
        Q = [(x + (1 if x > cx else -1), y + (1 if y > cy else -1)) for x, y in P]
        Q = hull(Q)
    elif how == 'mirrored':
        Q = [(2 * cx - x, 2 * cy - y) for x, y in P]
    elif how == 'same floats':
        # differs only in digits that a float does not have
        e = F(1, 10 ** 22) * max(max(xs) - min(xs), max(ys) - min(ys))
        Q = [(x + (e if x > cx else -e), y + (e if y > cy else -e)) for x, y in P]
        if len(hull(Q)) != n:
            Q = P
    elif how == 'same':
        k = rng.randrange(n)
        Q = P[k:] + P[:k]
        if rng.random() < .5:
            Q.reverse()
    else:
        x, y = P[0]
        Q = [(x + 2 * (a - x), y + 2 * (b - y)) for a, b in P]
    return [tuple(CTX.divide(Decimal(t.numerator), Decimal(t.denominator)) for t in p) for p in Q], how


def worlds(rng, mon, n):
    """Bounding polygons with several site lists each, and the diagrams that fresh objects make of them."""
    f = api()
    out = []
    while len(out) < n:
        kind, s = rng.choice(KINDS), rng.randrange(10 ** 9)
        poly, sites = gen.make(kind, s)
        spec = {'poly': poly, 'circle': None, 'lists': [], 'name': kind}
        if out and not out[0]['circle'] and rng.random() < .6:
            spec['poly'], how = relative(rng, out[0])
            spec['name'] = how
            for S in out[0]['lists']:
                S = list(S)
                if rng.random() < .5:
                    rng.shuffle(S)
                if how == 'same floats' and rng.random() < .6:
                    e = F(1, 10 ** 22) * (max(abs(fr(a)) for p in S for a in p) or 1)
                    S = [tuple(CTX.divide(Decimal(t.numerator), Decimal(t.denominator)) for t in
                               (fr(x) + e * rng.randint(-3, 3), fr(y) + e * rng.randint(-3, 3))) for x, y in S]
                    if len(set(map(tuple, S))) < len(S):
                        continue
                o = Oracle(spec['poly'], S)
                if o.wellposed and all(o.cells):
                    spec['lists'].append(S)
            if len(spec['lists']) >= 2:
                mon.see('polygons related to another one')
        elif rng.random() < .15:
            mon.see('bounding circles')
            spec['circle'] = (rng.randint(-5, 5), rng.randint(-5, 5), 10)
            spec['name'] = 'disc'
            x, y, r = spec['circle']
            for _ in range(rng.randint(2, 3)):
                S = []
                while len(S) < 6:
                    a, b = rng.uniform(-r, r), rng.uniform(-r, r)
                    if a * a + b * b < .9 * r * r:
                        S.append((x + a, y + b))
                spec['lists'].append(S[:rng.randint(2, 6)])
        else:
            for _ in range(rng.randint(2, 3)):
                S = rng.sample(sites, rng.randint(1, min(len(sites), 9)))
                if Oracle(poly, S).wellposed:
                    spec['lists'].append(S)
        if len(spec['lists']) < 2:
            continue
        spec['want'] = {}
        for k, S in enumerate(spec['lists']):
            for flag in (True, False):
                spec['want'][k, flag] = Zygote.ask(spec, S, flag)
                mon.see('diagrams created in a process of their own')
                v = f.Voronoi(fresh_polygon(spec), remove_zero_length_edges=flag)
                v.create_diagram(list(S))
                mon.check(full(v) == spec['want'][k, flag], 'the same input gives another diagram than in a process of its own (%s, %s, sites %s)',
                          spec['name'], spec['circle'] or spec['poly'], S)
        out.append(spec)
    return out


def run(job, mon):
    Zygote.start()
    if 'threads' in job:
        return run_threads(job, mon)
    from foronoi.observers.observer import Observer
    from foronoi.observers.message import Message
    f = api()
    rng = random.Random('hist' + job['hist'])
    specs = worlds(rng, mon, rng.randint(1, 3))
    for s in specs:
        s['object'] = fresh_polygon(s)
        s['used'] = set()
    objects = []
    history = []
    state = {}          # id(object) -> what it should contain, for the finished ones

    class Hook(Observer):
        """Does something at a given step message."""

        def __init__(self):
            self.at = None

        def update(self, subject, message, **kwargs):
            if self.at is None or message == Message.DEBUG and self.at[2] != 'debug':
                return
            when, what, kind = self.at
            if kind == 'step' and message != Message.STEP_FINISHED:
                return
            if kind == 'sweep' and message != Message.SWEEP_FINISHED:
                return
            if kind == 'finished' and message != Message.VORONOI_FINISHED:
                return
            if when > 0:
                self.at = (when - 1, what, kind)
                return
            self.at = None
            what()

    def new_object():
        k = rng.randrange(len(specs))
        flag = rng.random() < .6
        v = f.Voronoi(specs[k]['object'], remove_zero_length_edges=flag)
        h = Hook()
        v.attach_observer(h)
        objects.append((v, h, k, flag))
        return objects[-1]

    def create(ob, depth=0, trick=None):
        v, h, k, flag = ob
        spec = specs[k]
        j = rng.randrange(len(spec['lists']))
        if id(v) in state:
            mon.see('created again with the same object')
        if spec['used'] - {id(v)}:
            mon.see('polygon used by another object before')
        history.append((depth, objects.index(ob), k, j, flag, trick[0] if trick else None))
        state.pop(id(v), None)
        if trick:
            kind, where = trick
            when = rng.randrange(len(spec['lists'][j])) if where in ('step', 'debug') else 0
            if kind == 'nest':
                others = [o for o in objects if o[0] is not v]
                other = rng.choice(others) if others and rng.random() < .8 else new_object()

                def what():
                    mon.see('nested constructions')
                    create(other, depth + 1)
            else:
                def what():
                    mon.see('aborted constructions')
                    raise Abort()
            h.at = (when, what, where)
        try:
            v.create_diagram(list(spec['lists'][j]))
        except Abort:
            spec['used'].add(id(v))
            h.at = None
            return
        h.at = None
        spec['used'].add(id(v))
        state[id(v)] = (v, spec['want'][j, flag])
        mon.check(full(v) == spec['want'][j, flag], 'after the history %s, the diagram of %s, sites %s, differs from the one of '
                  'fresh objects', history, spec['circle'] or spec['poly'], spec['lists'][j])
        mon.see('diagrams compared')

    for _ in range(rng.randint(2, 3)):
        new_object()
    for _ in range(rng.randint(3, 7)):
        trick = None
        if rng.random() < .3:
            trick = ('nest', rng.choice(['step', 'step', 'sweep', 'finished']))
        elif rng.random() < .25:
            trick = ('abort', rng.choice(['step', 'debug', 'sweep', 'finished']))
        create(rng.choice(objects), trick=trick)
        for v, want in list(state.values()):
            mon.check(full(v) == want, 'a finished diagram changes when others are created (history %s)', history)
            mon.see('finished diagrams read again')
        if mon.violations:
            return
    mon.shape(tuple(history), tuple(s['name'] for s in specs))


def run_threads(job, mon):
    """Separate objects in separate threads."""
    f = api()
    rng = random.Random('threads' + job['threads'])
    specs = worlds(rng, mon, 4)
    failures = []

    def work(spec, order):
        try:
            for j, flag in order:
                v = f.Voronoi(fresh_polygon(spec), remove_zero_length_edges=flag)
                v.create_diagram(list(spec['lists'][j]))
                if full(v) != spec['want'][j, flag]:
                    failures.append('a diagram created while other threads create theirs differs: %s %s' % (spec['poly'], spec['lists'][j]))
        except Exception as e:
            failures.append('in a thread: %s: %s' % (type(e).__name__, e))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(s, [(rng.randrange(len(s['lists'])), rng.random() < .5) for _ in range(4)]))
              for s in specs]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    mon.see('created in threads', 16)
    for m in failures:
        mon.bad(m)
    mon.shape('threads', job['threads'])
