"""C08: walks over random trees."""
import sys
from profiling.stats import FlatFrozenStatistics, FrozenStatistics, spread_stats, VoidRecordingStatistics
import trees
from trees import dump, levels

RULE = ('random trees of all kinds, walked in full and selectively with random choices, several walks at once, abandoned walks, '
        'chains of 1200 to 20000 nodes; the nodes yielded against a level by level enumeration; distinct = tree and choices')


def names(nodes, index):
    return [index.get(id(n), '?') for n in nodes]


def indexed(root):
    lv = [s for s, _, _ in levels(root)]
    return lv, {id(s): i for i, s in enumerate(lv)}


def full(H):
    for inp, root in trees.samples(H, small=400):
        lv, ix = indexed(root)
        H.case(inp)
        shape = lambda: dump(root, lambda s: (s.name, s.own_hits))
        before = shape()
        for what, f in (('spread_stats(root)', lambda: spread_stats(root)), ('spread_stats(root, False)', lambda: spread_stats(root, False)),
                        ('spread_stats(root, spreader=False)', lambda: spread_stats(root, spreader=False))):
            ok, got = H.attempt(what, inp, lambda: list(f()))
            if ok:
                H.equal(names(got, ix), list(range(1, len(lv))), what, inp)
        if len(lv) < 300:
            lv2 = lv[len(lv) // 2]
            sub, ix2 = indexed(lv2)
            H.equal(names(list(spread_stats(lv2)), ix2), list(range(1, len(sub))), 'walk below an inner node', inp)
        H.equal(shape(), before, 'the tree after the walk', inp)


def expected(root, ix, wanted):
    out, queue = [], list(root)
    for s in queue:
        out.append(ix[id(s)])
        if ix[id(s)] in wanted:
            queue.extend(s)
    return out


def selective(H):
    for inp, root in trees.samples(H, small=400):
        lv, ix = indexed(root)
        p = H.rng.choice([0, .3, .6, .9, 1])
        wanted = set(i for i in range(len(lv)) if H.rng.random() < p)
        inp = dict(case=inp, spread=sorted(wanted)[:40])
        H.case(inp)
        want = expected(root, ix, wanted)

        def go(times, walk=None):
            out = []
            for s, spread in walk or spread_stats(root, spreader=True):
                out.append(ix[id(s)])
                if ix[id(s)] in wanted:
                    for _ in range(times):
                        spread()
            return out
        for times in (1, 2):
            ok, got = H.attempt('selective walk', inp, go, times)
            if ok:
                H.equal(got, want, 'nodes of a selective walk', inp)
        if len(lv) > 300:
            continue
        # a second walk of the same tree goes on meanwhile and spreads the others
        others = set(range(len(lv))) - wanted

        def two():
            a, b = [], []
            w = spread_stats(root, True)
            for s, spread in spread_stats(root, True):
                a.append(ix[id(s)])
                if ix[id(s)] in wanted:
                    spread()
                for s2, spread2 in w:
                    b.append(ix[id(s2)])
                    if ix[id(s2)] in others:
                        spread2()
                    break
            for s2, spread2 in w:
                b.append(ix[id(s2)])
                if ix[id(s2)] in others:
                    spread2()
            return a, b
        ok, got = H.attempt('two walks at once', inp, two)
        if ok:
            H.equal(got, (want, expected(root, ix, others)), 'nodes of two walks at once', inp)
        # walking inside a walk
        def nested():
            out = []
            for s, spread in spread_stats(root, True):
                out.append(ix[id(s)])
                for s2, spread2 in spread_stats(s, True):
                    if ix[id(s)] not in wanted:
                        spread2()
                if ix[id(s)] in wanted:
                    spread()
                list(spread_stats(s))
            return out
        ok, got = H.attempt('walks inside a walk', inp, nested)
        if ok:
            H.equal(got, want, 'nodes of a walk with others inside', inp)


def depth(H):
    for n in (2000, 20000):
        root = trees.listed(H.rng, n, deep=True)
        H.case('chain of %d' % n)
        ok, got = H.attempt('walk', 'chain of %d' % n, lambda: sum(1 for _ in spread_stats(root)))
        H.equal(got, n, 'nodes of a chain', 'chain of %d' % n)

        def sel():
            k = 0
            for s, spread in spread_stats(root, True):
                k += 1
                spread()
            return k
        ok, got = H.attempt('selective walk', 'chain of %d' % n, sel)
        H.equal(got, n, 'nodes of a chain', 'chain of %d' % n)
    n = 300000 if H.thorough else 140000
    wide = trees.listed(H.rng, 0)
    wide.children = [trees.listed(H.rng, 0) for _ in range(20000)]
    H.equal(sum(1 for _ in spread_stats(wide)), 20000, 'children of one node', '20000 children')
    # as many as never before waiting at a time, on the first level and on the second
    for what, kids in (('%d children' % n, [FrozenStatistics(str(i)) for i in range(n)]),):
        for root in (FrozenStatistics(children=kids), FrozenStatistics(children=[FrozenStatistics(children=kids)])):
            H.case((what, len(root)))
            ok, got = H.attempt('walk', what, lambda: [s for s in spread_stats(root)])
            if ok:
                H.expect(len(got) == n + (len(root) == 1) and got[-1] is kids[-1] and got[-n] is kids[0], '%d nodes of %d' % (len(got), n), what)
    flat = FlatFrozenStatistics.flatten(wide)
    H.equal(len(list(spread_stats(flat))), len(flat.children), 'a flat tree', 'flat')


def abandoned(H):
    """a walk given up half-way does not disturb later ones"""
    for k in range(100):
        root = trees.recorded(H.rng, 20)
        lv, ix = indexed(root)
        n = H.rng.randint(0, 10)
        H.case((k, n))
        w = spread_stats(root, True)
        for _ in range(n):
            x = next(w, None)
            if x is None:
                break
            x[1]()
        got = [ix[id(s)] for s, _ in spread_stats(root, True)]
        H.equal(got, [ix[id(s)] for s in root], 'a later walk that spreads nothing', dict(case=k, before=n))


SECTIONS = [full, selective, depth, abandoned]
