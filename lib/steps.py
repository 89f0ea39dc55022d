"""Monitors that look at the running algorithm after every step, through the observer interface."""
import math
from decimal import Decimal, Context, ROUND_HALF_EVEN

from lib.runner import Violation

CTX = Context(prec=60, rounding=ROUND_HALF_EVEN)


def in_order(root, limit):
    """The nodes of a binary tree in order with their depth; a Violation if it does not end."""
    out, stack, node, depth = [], [], root, 0
    while stack or node is not None:
        while node is not None:
            stack.append((node, depth))
            node, depth = node.left, depth + 1
            if len(stack) > limit:
                raise Violation('the status structure contains a loop')
        node, depth = stack.pop()
        out.append((node, depth))
        if len(out) > limit:
            raise Violation('the status structure has too many nodes')
        node, depth = node.right, depth + 1
    return out


def leaves(root, limit):
    return [n for n, d in in_order(root, limit) if n.left is None and n.right is None]


def is_circle(event):
    from foronoi.events import CircleEvent
    return isinstance(event, CircleEvent)


def make_monitor(step, sweep=None, done=None):
    """An observer that calls step(algorithm) after every event, sweep(algorithm) and done(algorithm)."""
    from foronoi.observers.observer import Observer
    from foronoi.observers.message import Message

    class StepMonitor(Observer):
        def update(self, subject, message, **kwargs):
            if message == Message.STEP_FINISHED:
                step(subject)
            elif message == Message.SWEEP_FINISHED and sweep:
                sweep(subject)
            elif message == Message.VORONOI_FINISHED and done:
                done(subject)
    return StepMonitor()


def breakpoint_x(p, q, l):
    """Where the parabola of p (left) ends and the one of q (right) starts, at sweep position l, to 60 digits. p, q are
    pairs of Decimals. None if there is no such place."""
    c = CTX
    dp, dq = c.subtract(p[1], l), c.subtract(q[1], l)
    if dp == dq:
        if p[0] > q[0]:
            return None
        return c.divide(c.add(p[0], q[0]), Decimal(2))
    if dp == 0:
        return p[0]
    if dq == 0:
        return q[0]
    # (x - px)^2 / dp + py = (x - qx)^2 / dq + qy, in coordinates with p at x = 0
    h = c.subtract(q[0], p[0])
    # dq x^2 - dp (x - h)^2 + (py - qy) dp dq = 0
    A = c.subtract(dq, dp)
    B = c.multiply(2, c.multiply(dp, h))
    C = c.subtract(c.multiply(c.multiply(c.subtract(dp, dq), dp), dq), c.multiply(dp, c.multiply(h, h)))
    disc = c.subtract(c.multiply(B, B), c.multiply(4, c.multiply(A, C)))
    if disc < 0:
        disc = Decimal(0)
    s = c.sqrt(disc)
    # with f = f_p - f_q = (dq x^2 - dp (x-h)^2 + ...) / (2 dp dq), the crossing from minus to plus has slope s >= 0:
    # 2 A x + B = +s
    num = c.subtract(s, B)
    if abs(num) * 1000 < abs(B):
        # avoid cancellation: (s - B) = -4AC / (s + B)
        den = c.add(s, B)
        x = c.divide(c.multiply(-2, C), den)
    else:
        x = c.divide(num, c.multiply(2, A))
    return c.add(p[0], x)


class SweepDone(Exception):
    """Raised by a monitor to end a construction after the sweep: clipping is the subject of other checks."""


def sweep_only(poly, sites, step, flag=True):
    from lib import diagram

    def stop(a):
        raise SweepDone()
    try:
        diagram.build(poly, sites, flag, observers=[make_monitor(step, sweep=stop)])
    except SweepDone:
        return
    raise Violation('the sweep was never announced as finished')
