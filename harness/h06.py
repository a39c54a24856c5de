"""C06: pickling random trees."""
import copy
import pickle
from profiling.stats import FrozenStatistics, FlatFrozenStatistics
import trees
from trees import dump, FIELDS

RULE = ('random trees (recorded with absent callers, frozen, user-defined; up to 40 nodes, chains of 1200 and 3000, large ones of 13000) pickled '
        'with every protocol; the loaded tree compared node by node, twice; distinct = different tree or protocol')


def full(root):
    return dump(root, lambda s: trees.recorded_values(s) + (len(s),))


def state(root):
    return dump(root, lambda s: trees.recorded_values(s) + (type(s).__name__, len(s), id(s)))


def check(H, inp, root, protocol):
    H.case((inp, protocol))
    before = state(root)
    want = full(root)
    ok, data = H.attempt('saving', (inp, protocol), pickle.dumps, root, protocol)
    if not ok:
        return None
    ok, t = H.attempt('loading', (inp, protocol), pickle.loads, data)
    if not ok:
        return None
    H.expect(state(root) == before, 'saving changed the original', (inp, protocol))
    lv = trees.levels(t)
    H.expect(all(type(s) is FrozenStatistics for s, _, _ in lv), 'a loaded node is not frozen', (inp, protocol))
    H.expect(len(set(id(s) for s, _, _ in lv)) == len(lv), 'a loaded node appears twice', (inp, protocol))
    H.expect(all(list(s.children) == list(s) for s, _, _ in lv), 'children and iteration differ', (inp, protocol))
    got = full(t)
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        H.fail('the loaded tree differs at node %d: %r, saved %r' % (i, got[i:i + 2], want[i:i + 2]),
               dict(case=inp, protocol=protocol, tree=want[:60]))
        return None
    return t


def random_trees(H):
    for i, (inp, root) in enumerate(trees.samples(H, small=200)):
        if not H.time_left():
            return
        ps = range(pickle.HIGHEST_PROTOCOL + 1) if i < 60 else [i % (pickle.HIGHEST_PROTOCOL + 1)]
        for p in ps:
            t = check(H, inp, root, p)
            if t is not None and i % 3 == 0:
                check(H, inp + ' (second round trip)', t, p)


def values(H):
    """awkward values of a node"""
    for vals in [(None,) * 4 + (0, 0.0), ('', '', 0, '', 0, 0.0), ('a', 'b', 1, 'c', 10 ** 30, 1e300),
                 ('é\u4e00', '\n', -1, '\x00', -5, -0.5), ('a', 'b', 1.5, 'c', 0.5, 7)]:
        for shape in (0, 1, 2):
            root = FrozenStatistics(*vals)
            for _ in range(shape):
                root.children.append(FrozenStatistics(*vals))
            check(H, ('values', vals, shape), root, 2)


def twins(H):
    """equal siblings and empty trees keep their places"""
    root = FrozenStatistics('r')
    for i in range(4):
        c = FrozenStatistics('same', 'f', 1, 'm', 1, 1.0)
        root.children.append(c)
        for j in range(i):
            c.children.append(FrozenStatistics('leaf', 'f', j, 'm', i, 1.0 * j))
    check(H, 'twins', root, 2)
    t = pickle.loads(pickle.dumps(root, 2))
    t.children[0].children.append(FrozenStatistics('new'))
    H.equal([len(c) for c in t], [1, 1, 2, 3], 'adding to one loaded node', 'twins')
    check(H, 'one node', FrozenStatistics(), 2)
    H.equal(full(copy.copy(root)), full(root), 'copy', 'twins')


def large(H):
    for n in ((13000, 70000) if H.thorough else (13000,)):
        wide, long_, chain = FrozenStatistics('wide'), FrozenStatistics('long'), FrozenStatistics('chain')
        for i in range(n):
            wide.children.append(FrozenStatistics('f%d' % i, 'f', i, 'm', i, 1.0))
        spine = [long_]
        for i in range(n):
            c = FrozenStatistics('g%d' % i, 'f', i, 'm', 1, 1.0)
            spine[(i * i) // n].children.append(c)
            spine.append(c)
        at = chain
        for i in range(n):
            at.children.append(FrozenStatistics('h%d' % i, 'f', i, 'm', 1, 1.0))
            at = at.children[0]
        for what, root in (('wide', wide), ('long', long_), ('chain', chain)):
            check(H, 'large: %d nodes, %s' % (n, what), root, 2)


SECTIONS = [random_trees, values, twins, large]
