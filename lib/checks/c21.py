"""C21: tree operations behave like a sorted set, keep the order and the balance."""
import bisect
import random
from lib.diagram import *
from lib import trees

RULE = ('Random sequences of insertions and deletions (uniform, ascending, descending, zigzag, delete-heavy; keys of several '
        'types, present and absent) against a sorted list, checking every node after every operation; and random leaf trees '
        'under leaf replacement with rebalancing, rotations and searches. Distinct: by tree shape.')
ASSUMPTIONS = ['keys are distinct', 'predecessor and successor are those of leaf-oriented trees, in which every inner node has two children']
MUST_SEE = ['insertions', 'deletions', 'deletions of absent keys', 'deletions of the root', 'deletions of nodes with two children',
            'finds', 'finds by value', 'rotations', 'leaf replacements', 'parents that became leaves', 'rebalanced', 'leaf searches', 'neighbours', 'leaf lists',
            'trees of 100 or more keys', 'searches exactly on a separator']


def jobs(seed, tier):
    q = tier == 'quick'
    return [{'ops': '%s.%s' % (seed, k)} for k in range(160 if q else 4000)] + \
        [{'big': '%s.%s' % (seed, k), 'weight': 5} for k in range(4 if q else 60)] + \
        [{'leaf': '%s.%s' % (seed, k)} for k in range(160 if q else 4000)]


def run(job, mon):
    if 'ops' in job:
        run_ops(random.Random('ops' + job['ops']), mon, False)
    elif 'big' in job:
        run_ops(random.Random('big' + job['big']), mon, True)
    else:
        run_leaf(random.Random('leaf' + job['leaf']), mon)


def well_formed(root, mon, what, balanced=True, key=lambda n: n.data):
    """Parents, stored heights, balance; returns the nodes in order."""
    ns = [n for n, _ in trees.nodes(root)]
    h = trees.heights(root)
    if root is not None:
        mon.check(root.parent is None, '%s: the root has a parent', what)
    for n in ns:
        for c in (n.left, n.right):
            if c is not None and not mon.check(c.parent is n, '%s: a child of %s does not know its parent', what, n.data):
                return ns
        if not mon.check(n.height == h[id(n)], '%s: the height of %s is stored as %s instead of %s', what, n.data, n.height, h[id(n)]):
            return ns
        b = (h[id(n.left)] if n.left is not None else 0) - (h[id(n.right)] if n.right is not None else 0)
        mon.check(n.balance == b, '%s: the balance of %s is %s instead of %s', what, n.data, n.balance, b)
        if balanced and not mon.check(abs(b) <= 1, '%s: the subtrees of %s differ in height by %d', what, n.data, b):
            return ns
    return ns


def navigation(root, ns, mon, what):
    if root is None:
        return
    mon.check(root.minimum() is ns[0] and root.maximum() is ns[-1], '%s: minimum or maximum is wrong', what)
    for n in ns:
        p = n.parent if n is not root else None
        mon.check(n.is_leaf() == (n.left is None and n.right is None), '%s: is_leaf is wrong', what)
        mon.check(bool(n.is_left_child()) == (p is not None and p.left is n) and
                  bool(n.is_right_child()) == (p is not None and p.right is n), '%s: which child %s is', what, n.data)
        mon.check(n.grandparent is (p.parent if p is not None and p is not root else None), '%s: grandparent is wrong', what)
    from foronoi.tree.tree import Tree
    got = Tree.get_leaves(root)
    want = [n for n in ns if n.left is None and n.right is None]
    mon.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), '%s: the leaves are %s instead of %s', what,
              [n.data for n in got], [n.data for n in want])
    mon.see('leaf lists')


def run_ops(rng, mon, big):
    from foronoi.tree.tree import Tree
    from foronoi.tree.node import Node
    kind = rng.choice(['int', 'float', 'decimal', 'tuple', 'str'])
    span = rng.choice([8, 30, 200]) if not big else 3000
    pool = rng.sample(range(-span, span), span)
    conv = {'int': lambda k: k, 'float': lambda k: k / 7, 'decimal': lambda k: Decimal(k) / 4, 'tuple': lambda k: (k // 3, k % 3),
            'str': lambda k: '%05d' % (k + span)}[kind]
    style = rng.choice(['uniform', 'ascending', 'descending', 'zigzag', 'shrink'])
    if style == 'ascending':
        pool.sort()
    elif style == 'descending':
        pool.sort(reverse=True)
    elif style == 'zigzag':
        pool.sort()
        pool = [pool[i // 2] if i % 2 == 0 else pool[-1 - i // 2] for i in range(len(pool))]
    pool = list(map(conv, pool))
    root, model, history = None, [], []
    n_ops = rng.randint(5, 60) if not big else 2500
    late = iter(pool)
    for step in range(n_ops):
        grow = .65 if style != 'shrink' or step < n_ops / 2 else .15
        if rng.random() < grow or not model:
            k = next(late, None)
            if k is None:
                continue
            root = Tree.insert(root, Node(k))
            bisect.insort(model, k)
            history.append(('+', k))
            mon.see('insertions')
        else:
            if rng.random() < .15:
                k = rng.choice(pool)
                if k in model:
                    continue
                mon.see('deletions of absent keys')
            else:
                k = root.data if rng.random() < .25 else rng.choice(model)
                node = Tree.find(root, k)
                if node is not None and node.left is not None and node.right is not None:
                    mon.see('deletions of nodes with two children')
                if k == root.data:
                    mon.see('deletions of the root')
                model.remove(k)
                mon.see('deletions')
            root = Tree.delete(root, k)
            history.append(('-', k))
        if big and step % 50 and step < n_ops - 1:
            continue
        what = 'after %s' % (history if len(history) < 25 else '%d operations' % len(history))
        ns = well_formed(root, mon, what)
        got = [n.data for n in ns]
        if not mon.check(got == model, '%s: the keys are %s instead of %s', what, got[:30], model[:30]):
            return
        navigation(root, ns, mon, what)
        mon.shape(tuple(d for _, d in trees.nodes(root))[:64])
        if len(model) >= 100:
            mon.see('trees of 100 or more keys')
        for k in rng.sample(model, min(3, len(model))) + rng.sample(pool, min(3, len(pool))):
            r = Tree.find(root, k)
            mon.check((r is not None and r.data == k) if k in set(model) else r is None, '%s: find(%s) returns %s', what, k, r and r.data)
            mon.see('finds')
            r = Tree.find_value(root, Node(k))
            mon.check((r is not None and r.data == k) if k in set(model) else r is None, '%s: find_value(%s) returns %s', what, k,
                      r and r.data)
            if model:
                # with a condition that only some nodes meet
                r = Tree.find_value(root, Node(k), compare=lambda x, y: x == y and x == model[0])
                mon.check((r is not None and r.data == k) if k == model[0] else r is None,
                          '%s: find_value(%s) with a condition returns %s', what, k, r and r.data)
            mon.see('finds by value')
        if mon.violations:
            return


def run_leaf(rng, mon):
    """Trees whose leaves carry the content and whose inner nodes separate them, like the beach line."""
    from foronoi.tree.tree import Tree
    from foronoi.tree.node import Node

    def leaf(k):
        return Node(k)

    def inner(k, a, b):
        n = Node(k)
        n.left, n.right = a, b
        return n
    # leaves at odd numbers, separators at even ones (fractions in between when a leaf is replaced)
    root = leaf(Fraction_(1))
    keys = [Fraction_(1)]               # in order, alternating leaf, separator, leaf ...
    history = 0
    for step in range(rng.randint(1, 60)):
        ns = [n for n, _ in trees.nodes(root)]
        leaves_ = [i for i in range(0, len(ns), 2)]
        i = rng.choice(leaves_) if rng.random() < .7 else leaves_[0] if rng.random() < .5 else leaves_[-1]
        node = ns[i]
        lo = keys[i - 1] if i else keys[i] - 2
        hi = keys[i + 1] if i + 1 < len(keys) else keys[i] + 2
        op = rng.random()
        if op < .7 or len(ns) < 3:
            # a leaf becomes two or three leaves
            m = rng.choice([2, 3, 3])
            q = [lo + (hi - lo) * t / (2 * m) for t in range(1, 2 * m)]
            if m == 2:
                rep = inner(q[1], leaf(q[0]), leaf(q[2]))
            elif rng.random() < .5:
                rep = inner(q[1], leaf(q[0]), inner(q[3], leaf(q[2]), leaf(q[4])))
            else:
                rep = inner(q[3], inner(q[1], leaf(q[0]), leaf(q[2])), leaf(q[4]))
            for x in ns:
                x.height
            root = node.replace_leaf(replacement=rep, root=root)
            keys[i:i + 1] = q
            mon.see('leaf replacements')
            check(root, keys, mon, 'after a leaf replacement', balanced=False)
            if mon.violations:
                return
            root = Tree.balance_and_propagate(rep)
            mon.see('rebalanced')
        elif op < .9:
            # a leaf and the separator next to it disappear: the sibling takes the place of the parent
            p = node.parent
            sib = p.right if p.left is node else p.left
            j = next(k for k, x in enumerate(ns) if x is p)
            root = p.replace_leaf(sib, root)
            gone = {i, j}
            keys = [k for t, k in enumerate(keys) if t not in gone]
            mon.see('leaf replacements')
            check(root, keys, mon, 'after a leaf was removed', balanced=False)
            if mon.violations:
                return
            root = Tree.balance_and_propagate(sib)
            mon.see('rebalanced')
        else:
            # nothing instead of a leaf, and the leaf again
            side = 'left' if node.parent.left is node else 'right'
            p = node.parent
            root = node.replace_leaf(None, root)
            rest = keys[:i] + keys[i + 1:]
            check(root, rest, mon, 'after a leaf was cut off', balanced=False, full=False)
            other = p.left or p.right
            if other.is_leaf():
                # the parent becomes a leaf, so the heights above it change
                root = other.replace_leaf(None, root)
                j = next(k for k, x in enumerate(ns) if x is other)
                check(root, [k for t, k in enumerate(keys) if t not in (i, j)], mon, 'after both leaves were cut off', balanced=False, full=False)
                setattr(p, 'right' if side == 'left' else 'left', other)
                mon.see('parents that became leaves')
            setattr(p, side, node)
            p.update_heights()
            lone = leaf(keys[0])
            mon.check(lone.replace_leaf(None, lone) is None, 'the only leaf of a tree was cut off, but there is still a tree')
        check(root, keys, mon, 'after %d operations on a leaf tree' % step)
        if mon.violations:
            return
        # rotations anywhere keep the order, and turning back restores the tree
        ns = [n for n, _ in trees.nodes(root)]
        z = rng.choice(ns)
        for turn, back, side in ((Tree.rotate_left, Tree.rotate_right, 'right'), (Tree.rotate_right, Tree.rotate_left, 'left')):
            y = getattr(z, side)
            if y is None or z.is_leaf() or y.is_leaf():
                continue
            p = z.parent
            new = turn(z)
            mon.see('rotations')
            mon.check(new is y, 'a rotation does not return the new root of the subtree')
            mon.check(y.parent is p and (p is None or p.left is y or p.right is y), 'a rotated subtree is not attached')
            top = y if p is None else root
            # only the rotated nodes know their heights again
            if p is not None:
                y.update_heights()
            check(top, keys, mon, 'after a rotation', balanced=False)
            again = back(y)
            mon.check(again is z and z.parent is p, 'turning back does not restore the subtree')
            z.update_heights()
        check(root, keys, mon, 'after rotating back')
        if mon.violations:
            return
    mon.shape(tuple(d for _, d in trees.nodes(root)))
    # searching
    ns = [n for n, _ in trees.nodes(root)]
    seps = keys[1::2]
    for _ in range(10):
        k = rng.choice(keys)
        if rng.random() < .5:
            k = k + F(rng.choice([-1, 1]), 10 ** 9)
        w = 2 * bisect.bisect_left(seps, k)
        if k in seps:
            mon.see('searches exactly on a separator')
        r = Tree.find_leaf_node(root, key=k)
        mon.check(r is ns[w], 'the leaf for %s is %s instead of %s', k, r and r.data, ns[w].data)
        mon.see('leaf searches')
    h = trees.heights(root)
    mon.check(h[id(root)] <= 1.4405 * math.log2(len(ns) + 2) + 1, 'a tree of %d nodes has the height %d', len(ns), h[id(root)])


def Fraction_(x):
    return F(x)


def check(root, keys, mon, what, balanced=True, full=True):
    ns = well_formed(root, mon, what, balanced)
    if not mon.check([n.data for n in ns] == keys, '%s: the order is %s instead of %s', what, [str(n.data) for n in ns][:12],
                     [str(k) for k in keys][:12]):
        return
    if mon.violations:
        return
    navigation(root, ns, mon, what)
    if full:
        for i, n in enumerate(ns):
            if i % 2 == 0:
                want = (ns[i - 2] if i else None, ns[i + 2] if i + 2 < len(ns) else None)
            else:
                # of an inner node: the leaves next to it
                want = (ns[i - 1], ns[i + 1])
            mon.check(n.predecessor is want[0] and n.successor is want[1], '%s: the neighbours of %s are %s and %s instead of %s', what,
                      n.data, n.predecessor and n.predecessor.data, n.successor and n.successor.data,
                      [w and str(w.data) for w in want])
        mon.see('neighbours', len(ns))
