"""C07: flat views of random trees against sums over all nodes."""
from profiling.stats import FlatFrozenStatistics, FrozenStatistics, spread_stats
import trees
from trees import FIELDS, MEASURES, dump, spec

RULE = ('random trees of recorded, frozen and hand-made statistics with few functions (much repetition), many functions, missing '
        'fields, chains of 1200 and 3000 nodes; the flat view against sums per function computed from the recorded measures; '
        'distinct = tree')

KEYS = [(n, f, l, m) for n in (None, 'a') for f in (None, 'x.py', 'y.py') for l in (None, 0, 1) for m in (None, 'a')]
# one field apart from each other, empty and missing, same text in other fields, numbers equal to each other
NEAR = [('a', 'x.py', 1, 'm'), ('b', 'x.py', 1, 'm'), ('a', 'y.py', 1, 'm'), ('a', 'x.py', 2, 'm'), ('a', 'x.py', 1, 'n'),
        ('', 'x.py', 1, 'm'), (None, 'x.py', 1, 'm'), ('a', '', 1, 'm'), ('a', None, 1, 'm'), ('a', 'x.py', 0, 'm'),
        ('a', 'x.py', None, 'm'), ('a', 'x.py', 1, ''), ('a', 'x.py', 1, None), ('x.py', 'a', 1, 'm'), ('a', 'm', 1, 'x.py'),
        (None, None, None, None), ('', '', 0, ''), ('m', 'x.py', 1, 'a')]


def check(H, inp, root):
    lv, measures = spec(root)
    H.case(inp)
    want, order = {}, []
    ident = [tuple(getattr(s, f) for f in FIELDS) for s, _, _ in lv]
    for k, ms in list(zip(ident, measures))[1:]:
        if k not in want:
            want[k] = [0, 0, 0.0, 0.0]
        for i, v in enumerate(ms):
            want[k][i] += v
    if len(lv) < 300:
        before = dump(root)
        kids = [list(s) for s, _, _ in lv]
    ok, flat = H.attempt('flatten', inp, FlatFrozenStatistics.flatten, root)
    if not ok:
        return
    got = {}
    for e in flat:
        k = tuple(getattr(e, f) for f in FIELDS)
        if k in got:
            H.fail('two entries for %r' % (k,), inp)
        got[k] = tuple(getattr(e, m) for m in MEASURES)
        H.expect(len(list(e)) == 0 and len(e) == 0, 'an entry has no children', inp)
    H.equal(len(flat), len(list(flat)), 'the length of the flat view', inp)
    H.equal(sorted(map(repr, got)), sorted(map(repr, want)), 'the functions of the flat view', inp)
    for k in want:
        if k in got:
            for m, g, w in zip(MEASURES, got[k], want[k]):
                H.expect(abs(g - w) <= 1e-9 * max(1, abs(w)), '%s of %r: %r, the sum is %r' % (m, k, g, w), inp)
    H.equal(tuple(getattr(flat, f) for f in FIELDS), ident[0], 'identity of the flat root', inp)
    for m, w in zip(MEASURES, measures[0]):
        H.expect(abs(getattr(flat, m) - w) <= 1e-9 * max(1, abs(w)), '%s of the flat root: %r, expected %r' % (m, getattr(flat, m), w), inp)
    if len(lv) < 300:
        H.equal(dump(root), before, 'the tree after flattening', inp)
        H.expect(all(len(a) == len(b) and all(x is y for x, y in zip(a, b)) for a, b in zip(kids, [list(s) for s, _, _ in lv])),
                 'the children are the same objects after flattening', inp)


def random_trees(H):
    for inp, root in trees.samples(H, small=300, deep=(1,)):
        check(H, inp, root)


def near(H):
    for i in range(300 if not H.thorough else 2000):
        fields = H.rng.sample(NEAR, H.rng.randint(1, len(NEAR))) if H.rng.random() < .6 else H.rng.sample(KEYS, H.rng.randint(1, 12))
        n = H.rng.choice([1, 2, 4, 10, 30, 80])
        root = trees.listed(H.rng, n, cls=H.rng.choice([FrozenStatistics, trees.ListStatistics]), fields=fields)
        check(H, 'near #%d seed %s: %d nodes' % (i, H.seed, n), root)


def patterns(H):
    """every function at every place: recursion, the root's function below the root, siblings, cousins, zero measures"""
    A, Bk, C = ('a', 'x.py', 1, 'm'), ('b', 'x.py', 5, 'm'), (None, None, None, None)
    import itertools
    shapes = [p for n in range(1, 5) for p in itertools.product(*[range(i + 1) for i in range(n)])]
    n = 0
    for p in shapes:
        for names in itertools.product((A, Bk, C), repeat=len(p)):
            if not H.thorough and len(p) == 4 and (n % 3):
                n += 1
                continue
            n += 1
            nodes = [FrozenStatistics(*(A + (2, 7.0)))]
            for i, (parent, k) in enumerate(zip(p, names)):
                s = FrozenStatistics(*(k + ((i * 3 + n) % 4, [0.0, 1.5, 4.0][(i + n) % 3])))
                nodes[parent].children.append(s)
                nodes.append(s)
            check(H, dict(parents=p, functions=[k[0] for k in names], number=n), nodes[0])
            if not H.time_left():
                return


def twice(H):
    """flattening is repeatable, of an inner node too, and of a flat view; earlier results stay as they were"""
    for i in range(60):
        root = trees.recorded(H.rng, 25) if i % 2 else trees.listed(H.rng, 25)
        first = FlatFrozenStatistics.flatten(root)
        d = dump(first)
        inner = list(spread_stats(root))
        check(H, 'inner node, twice #%d seed %s' % (i, H.seed), H.rng.choice(inner))
        check(H, 'the same again #%d seed %s' % (i, H.seed), root)
        H.equal(dump(first), d, 'an earlier flat view', 'twice #%d' % i)


SECTIONS = [random_trees, near, patterns, twice]
