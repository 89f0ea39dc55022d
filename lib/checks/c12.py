"""C12: observers receive the documented messages, in order, exactly once."""
import random
from lib.diagram import *
from lib import steps

RULE = ('Random histories of attaching, detaching, attaching again, observers that detach themselves or others while they are '
        'notified, and creating diagrams, over the layout generators; a log of everything that observers receive is checked '
        'against the protocol; and histories of subjects that inherit observers from others. Distinct: by the history of operations and the number of messages.')
ASSUMPTIONS = ['an observer is attached at most once at a time', 'no Voronoi vertex on the border of the polygon']
MUST_SEE = ['step messages', 'sweep messages', 'finished messages', 'debug messages', 'detached', 'attached again',
            'states compared', 'detached while notified', 'shared polygons', 'observers that are equal', 'answers of observers', 'messages of children', 'messages of parents',
            'children of another parent']
KINDS = ['box', 'conv', 'intgrid', 'mirror', 'edgecluster', 'samey', 'nearcol', 'hex', 'boxneg', 'few', 'collinear', 'tri', 'grid']


def jobs(seed, tier):
    q = tier == 'quick'
    return gen_jobs(seed, 25 if q else 600, KINDS) + thousand_jobs(seed, tier) + [{'family': '%s.%s' % (seed, k)} for k in range(60 if q else 1500)]


def family(job, mon):
    """Subjects whose messages go to the observers of another subject, in the other one's name."""
    from foronoi.observers.observer import Observer
    from foronoi.observers.subject import Subject
    from foronoi.observers.message import Message
    f = api()
    rng = random.Random('family' + job['family'])
    got = []

    class O(Observer):
        def update(self, subject, message, **kwargs):
            got.append((self, subject, message, kwargs))
    real = rng.random() < .5
    children = [f.Polygon([(0, 0), (9, 1), (4, 8)]) if real else Subject() for _ in range(rng.randint(1, 4))]
    parents = []
    of = {}                     # child -> parent
    for _ in range(rng.randint(1, 3)):
        if real:
            c = rng.choice(children)
            p = f.Voronoi(c)
            of[c] = p
        else:
            p = Subject()
        parents.append(p)
    attached = {p: [] for p in parents}
    history = []
    for step in range(rng.randint(5, 40)):
        op = rng.random()
        p = rng.choice(parents)
        if op < .3:
            o = O()
            mon.check(p.attach_observer(o) is p, 'attach_observer does not return the subject')
            attached[p].append(o)
            history.append('attach')
        elif op < .45 and attached[p]:
            o = rng.choice(attached[p])
            mon.check(p.detach_observer(o) is p, 'detach_observer does not return the subject')
            attached[p].remove(o)
            history.append('detach')
        elif op < .55:
            c = rng.choice(children)
            c.inherit_observers_from(p)
            of[c] = p
            # it gets to know them with the next change
            o = O()
            p.attach_observer(o)
            attached[p].append(o)
            mon.see('children of another parent')
            history.append('inherit')
        else:
            s = rng.choice(parents + [c for c in children if c in of])
            boss = of.get(s, s)
            message = rng.choice(list(Message))
            kw = rng.choice([{}, {'payload': 'text %d' % step}, {'a': 1, 'b': [2]}])
            if s in of and not attached[boss] and 'attach' not in history and 'inherit' not in history:
                continue
            del got[:]
            mon.check(s.notify_observers(message, **kw) is s, 'notify_observers does not return the subject')
            mon.check([x[0] for x in got] == attached[boss], 'after %s, %d observers are told of a message of a %s instead of %d', history,
                      len(got), 'child' if s in of else 'subject', len(attached[boss]))
            mon.check(all(x[1] is boss for x in got), 'the sender of a message is not the %s', 'parent' if s in of else 'subject')
            mon.check(all(x[2] is message and x[3] == kw for x in got), 'a message or its arguments are changed')
            mon.see('messages of children' if s in of else 'messages of parents', len(got))
        mon.check(all([id(x) for x in p.get_observers()] == [id(x) for x in attached[p]] for p in parents),
                  'get_observers does not list the attached ones')
        if mon.violations:
            return
    mon.shape(real, tuple(history))


def fingerprint(v):
    return ([(e.origin.xd, e.origin.yd, e.twin.origin.xd, e.twin.origin.yd) for e in v.edges],
            sorted((x.xd, x.yd) for x in v.vertices), [s.name for s in v.sites])


def run(job, mon):
    if 'family' in job:
        return family(job, mon)
    from foronoi.observers.observer import Observer
    from foronoi.observers.message import Message
    f = api()
    c = judge(job, mon)
    if not c:
        return
    poly, sites, o = c
    rng = random.Random('obs' + str(job['seed']) + job['gen'])
    log = []
    handled = []

    class Watch(Observer):
        def __init__(self, k):
            self.k = k
            self.at = None          # (message number, what to do)
            self.count = 0
            self.answers = rng.choice([(), (), (False,), (True,), (0, False, None, 1), (v, self, 'stop', [])])

        def update(self, subject, message, **kwargs):
            self.count += 1
            state = None
            if self.answers:
                mon.see('answers of observers')
            if message == Message.STEP_FINISHED:
                state = subject.event
            elif message == Message.SWEEP_FINISHED:
                state = (any(e for e in subject.event_queue.queue if not steps.is_circle(e) or e.is_valid),
                         sum(s.name is not None for s in subject.sites))
            elif message == Message.VORONOI_FINISHED:
                state = fingerprint(subject)
            log.append((self.k, subject, message, kwargs, state, subject.sweep_line))
            if self.at and self.count == self.at[0]:
                victim = self.at[1]
                if victim in attached:
                    subject.detach_observer(victim)
                    attached.remove(victim)
                    log.append(('detach', victim.k))
                    mon.see('detached while notified')
            # what an observer returns means nothing
            return self.answers[self.count % len(self.answers)] if self.answers else None

    polygon = f.Polygon(poly)
    v = f.Voronoi(polygon)
    other, others = None, []
    if rng.random() < .5:
        # another diagram with the same polygon, before or after
        other = f.Voronoi(polygon)
        mon.see('shared polygons')

        class Foreign(Observer):
            def update(self, subject, message, **kwargs):
                others.append(subject)
        other.attach_observer(Foreign())
    class Alike(Watch):
        # observers are told apart even if they are equal, like two empty lists
        def __eq__(self, other):
            return isinstance(other, Alike)

        __hash__ = None
    alike = rng.random() < .3
    mon.see('observers that are equal', alike)
    watchers = [(Alike if alike else Watch)(k) for k in range(rng.randint(1, 4))]
    attached = []
    history = []

    def attach(w):
        r = v.attach_observer(w)
        mon.check(r is v, 'attach_observer does not return the subject')
        attached.append(w)
        mon.check([id(x) for x in v.get_observers()] == [id(x) for x in attached], 'get_observers does not list the attached ones')

    def detach(w):
        r = v.detach_observer(w)
        mon.check(r is v, 'detach_observer does not return the subject')
        attached.remove(w)
        mon.see('detached')
        mon.check([id(x) for x in v.get_observers()] == [id(x) for x in attached], 'get_observers does not list the attached ones')
    was = []
    for round_ in range(rng.randint(1, 3)):
        for _ in range(rng.randint(1, 5)):
            w = rng.choice(watchers)
            if any(w is x for x in attached):
                if rng.random() < .5 and not alike:
                    detach(w)
                    was.append(w)
                    history.append('d%d' % w.k)
            else:
                attach(w)
                if w.k in [x.k for x in was]:
                    mon.see('attached again')
                history.append('a%d' % w.k)
        for w in watchers:
            w.at = None
            w.count = 0
        if attached and rng.random() < .4 and not alike:
            w = rng.choice(attached)
            w.at = (rng.randint(1, 3 * len(sites)), rng.choice(attached))
            history.append('x%d%d' % (w.k, w.at[1].k))
        del log[:]
        before = list(attached)
        if other and rng.random() < .6:
            n = len(others)
            other.create_diagram(sites)
            mon.check(not log, 'an observer is notified about a diagram that it is not attached to')
            mon.check(len(others) > n and all(s is other for s in others), 'the other diagram sends messages in another name')
        n = len(others)
        v.create_diagram(sites)
        mon.check(len(others) == n, 'the observer of another diagram is notified')
        verify(log, before, v, sites, mon, Message, o.scale)
        history.append(len(log))
        if mon.violations:
            mon.bad('after the history %s' % history)
            return
    mon.shape(tuple(history))


def verify(log, observers, v, sites, mon, Message, scale):
    """The log against the protocol: every message to all observers that are attached, in their order, from v."""
    alive = [w.k for w in observers]
    msgs = []
    i = 0
    while i < len(log):
        if log[i][0] == 'detach':
            alive.remove(log[i][1])
            i += 1
            continue
        k, subj, m, kw, state, line = log[i]
        want = list(alive)
        got = []
        while want and i < len(log):
            if log[i][0] == 'detach':
                if log[i][1] in alive:
                    alive.remove(log[i][1])
                if log[i][1] in want:
                    want.remove(log[i][1])
                i += 1
                continue
            e = log[i]
            if e[0] != want[0] or e[2] != m or e[3] != kw:
                break
            mon.check(e[1] is v, 'the sender of %s is not the diagram', m)
            got.append(e)
            want.pop(0)
            i += 1
        if want:
            mon.bad('the message %s %s was not sent to observer %s next (but %s)' % (
                m, kw, want[0], log[i][:4] if i < len(log) else 'nothing'))
            return
        msgs.append((m, kw, state, line))
    if not observers:
        mon.check(not log, 'messages were sent although nothing is attached')
        return
    if not alive:
        return           # the last one left in the middle
    main = [x for x in msgs if x[0] != Message.DEBUG]
    kinds = [x[0] for x in main]
    circ = sum(x[0] == Message.STEP_FINISHED and steps.is_circle(x[2]) for x in main)
    n = len(sites) + circ
    mon.check(kinds == [Message.STEP_FINISHED] * n + [Message.SWEEP_FINISHED, Message.VORONOI_FINISHED],
              'the messages are %s with %d sites and %d circle events', [k.name for k in kinds][-6:], len(sites), circ)
    if mon.violations:
        return
    seen = []
    for m, kw, ev, line in main[:n]:
        mon.see('step messages')
        mon.check(ev is not None and not any(ev is e for e in seen), 'a step is announced twice for the same event')
        mon.check(abs(ev.yd - line) <= Decimal(1e-9 * scale) + Decimal('1e-25') * abs(line), 'a step is announced at y=%s with the sweep line at %s', ev.yd, line)
        seen.append(ev)
    names = [e.point for e in seen if not steps.is_circle(e)]
    mon.check({id(p) for p in names} == {id(p) for p in v.sites}, 'the steps are not one for each site')
    mon.see('sweep messages')
    pend, named = main[n][2]
    mon.check(not pend and named == len(sites), 'when the sweep is announced as finished, %d sites are handled and %s pending',
              named, 'events are' if pend else 'nothing is')
    mon.see('finished messages')
    mon.check(main[n + 1][2] == fingerprint(v), 'the diagram changes after it has been announced as finished')
    mon.see('states compared')
    # nothing is announced after the end
    mon.check(msgs[-1][0] == Message.VORONOI_FINISHED, 'a message follows after the diagram is finished')
    for m, kw, _, _ in msgs:
        if m == Message.DEBUG:
            mon.see('debug messages')
            mon.check(isinstance(kw.get('payload'), str) and kw['payload'], 'a debug message comes without a text')
