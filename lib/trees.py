"""Reference views of binary trees, read through the public attributes of the nodes."""
from lib.runner import Violation


def nodes(root, limit=100000):
    """(node, depth) in order; a Violation if the tree does not end."""
    out, stack, n, d = [], [], root, 0
    while stack or n is not None:
        while n is not None:
            stack.append((n, d))
            if len(stack) > limit:
                raise Violation('the tree contains a loop')
            n, d = n.left, d + 1
        n, d = stack.pop()
        out.append((n, d))
        if len(out) > limit:
            raise Violation('the tree has too many nodes')
        n, d = n.right, d + 1
    return out


def heights(root):
    """id -> real height"""
    h = {}
    stack = [(root, False)] if root is not None else []
    steps = 0
    while stack:
        n, done = stack.pop()
        steps += 1
        if steps > 400000:
            raise Violation('the tree contains a loop')
        if done:
            h[id(n)] = 1 + max(h.get(id(n.left), 0) if n.left is not None else 0, h.get(id(n.right), 0) if n.right is not None else 0)
        else:
            stack.append((n, True))
            for c in (n.left, n.right):
                if c is not None:
                    stack.append((c, False))
    return h
