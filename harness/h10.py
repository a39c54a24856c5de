"""C10: sorting random children by every key."""
import itertools
from profiling import sortkeys
from profiling.stats import (FlatFrozenStatistics, FrozenStatistics, RecordingStatistics, Statistics, VoidRecordingStatistics)
import trees
from trees import CODES

RULE = ('lists of 0 to 30 children of every class with few distinct values (many ties, missing names, no hits), sorted by every key '
        'and its inversion; all pairs compared; distinct = list and key')

NAMES = [None, '', 'a', 'A', 'b', 'ab', 'é', 'aa', '0']
MODULES = [None, '', 'm', 'm.n', 'M', 'a']


def neg(*vals):
    return tuple(-v for v in vals)


ORDERS = {      # what comes first has the smaller tuple
    'by_name': lambda s: (s.name or '',),
    'by_module': lambda s: (s.module or '',),
    'by_function': lambda s: (s.module or '', s.name or ''),
    'by_deep_hits': lambda s: neg(s.deep_hits),
    'by_own_hits': lambda s: neg(s.own_hits),
    'by_deep_time': lambda s: neg(s.deep_time),
    'by_own_time': lambda s: neg(s.own_time, s.deep_time),
}
CALLED = {      # for statistics with own hits
    'by_deep_time_per_call': lambda s: neg(s.deep_time / s.own_hits),
    'by_own_time_per_call': lambda s: neg(s.own_time / s.own_hits, s.deep_time / s.own_hits),
}
KEYS = list(ORDERS) + list(CALLED)


def child(rng, deep=0):
    name, module = rng.choice(NAMES), rng.choice(MODULES)
    hits, time = rng.choice([0, 0, 1, 2, 3, 10]), rng.choice([0.0, 0.5, 1.0, 2.0, 3.0, 10.0])
    kind = rng.randrange(5)
    if kind == 0:
        s = RecordingStatistics(rng.choice(CODES))
        s.own_hits, s.deep_time = hits, time
        if deep < 2:
            for _ in range(rng.randrange(3)):
                c = child(rng, deep + 1)
                s.add_child(rng.choice(CODES), c)
    elif kind == 1:
        s = VoidRecordingStatistics(rng.choice(CODES))
        if deep < 2:
            for _ in range(rng.randrange(3)):
                s.add_child(rng.choice(CODES), child(rng, deep + 1))
    elif kind == 2:
        s = FlatFrozenStatistics(name, 'f', 1, module, hits, hits + rng.randrange(3), rng.choice([0.0, .5, time]), time)
    else:
        s = FrozenStatistics(name, 'f', 1, module, hits, time,
                             [child(rng, deep + 1) for _ in range(rng.randrange(3))] if deep < 2 else ())
    return s


def parent(rng, kids):
    k = rng.randrange(3)
    if k == 0:
        return FrozenStatistics('p', 'f', 1, 'm', 1, 1.0, kids)
    if k == 1:
        return FlatFrozenStatistics('p', 'f', 1, 'm', 1, 1, 1.0, 1.0, kids)
    s = trees.ListStatistics('p', 'f', 1, 'm', 1, 1.0)
    s.kids = list(kids)
    return s


def describe(s):
    return [type(s).__name__, s.name, s.module, s.own_hits, s.deep_hits, s.own_time, s.deep_time]


class Values(object):
    """the names and measures of a statistics, read once"""
    def __init__(self, s):
        for a in ('name', 'module', 'own_hits', 'deep_hits', 'own_time', 'deep_time'):
            setattr(self, a, getattr(s, a))


class Order(object):
    def __init__(self, name, kids):
        vs = {id(k): Values(k) for k in kids}
        self.called = name in CALLED
        o = CALLED[name] if self.called else ORDERS[name]
        self.keys = {i: o(v) for i, v in vs.items() if not self.called or v.own_hits}

    def __call__(self, x, y):
        a, b = self.keys.get(id(x)), self.keys.get(id(y))
        return a is not None and b is not None and a < b


def in_order(H, what, got, kids, before, inp):
    """got is a permutation of kids in which nothing precedes one it must follow"""
    if sorted(map(id, got)) != sorted(map(id, kids)):
        H.fail('%s: not the children (%d of %d)' % (what, len(got), len(kids)), inp)
        return
    for x, y in itertools.combinations(got, 2):
        if before(y, x):
            H.fail('%s: %r comes before %r' % (what, describe(x), describe(y)), inp)
            return


def lists(H):
    n = 400 if H.thorough else 40
    for i in range(n):
        if not H.time_left():
            return
        kids = [child(H.rng) for _ in range(H.rng.choice([0, 1, 2, 3, 6, 12, 30]))]
        p = parent(H.rng, kids)
        inp = dict(case='#%d seed %s' % (i, H.seed), children=[describe(k) for k in kids])
        for name in KEYS:
            H.case((i, name))
            key = getattr(sortkeys, name)
            before = Order(name, kids)
            ok, got = H.attempt('sorted(%s)' % name, inp, p.sorted, key)
            if ok:
                in_order(H, 'sorted(%s)' % name, got, kids, before, inp)
            ok, inv = H.attempt('sorted(~%s)' % name, inp, p.sorted, ~key)
            if ok:
                in_order(H, 'sorted(~%s)' % name, inv, kids, lambda x, y: before(y, x), inp)
            ok, twice = H.attempt('sorted(~~%s)' % name, inp, p.sorted, ~~key)
            if ok:
                in_order(H, 'sorted(~~%s)' % name, twice, kids, before, inp)
            if len(kids) <= 12:
                for x, y in itertools.product(kids, kids):
                    ok, r = H.attempt('comparing by %s' % name, dict(a=describe(x), b=describe(y)),
                                      lambda: (key(x) < key(y), key(y) < key(x), (~key)(x) < (~key)(y)))
                    if not ok:
                        break
                    lt, gt, ilt = r
                    H.expect(not (lt and gt), '%s: each before the other' % name, dict(a=describe(x), b=describe(y)))
                    H.expect(bool(ilt) == bool(gt), '~%s is not the opposite: %r' % (name, r), dict(a=describe(x), b=describe(y)))
                    if name in ORDERS:
                        H.expect(bool(lt) == before(x, y), '%s: %r before %r: %r' % (name, describe(x), describe(y), lt),
                                 dict(a=describe(x), b=describe(y)))
        H.case((i, 'default'))
        ok, got = H.attempt('sorted()', inp, p.sorted)
        if ok:
            in_order(H, 'sorted()', got, kids, lambda x, y: x.deep_time > y.deep_time, inp)
        H.equal(sorted(map(id, list(p))), sorted(map(id, kids)), 'the children after sorting', inp)
        H.equal([id(k) for k in p], [id(k) for k in kids], 'the order of the children after sorting', inp)
        H.equal([describe(k) for k in kids], inp['children'], 'the children as they were', inp)


def recorded(H):
    """children of recorded nodes"""
    for i in range(15):
        root = trees.recorded(H.rng, 30)
        for name in KEYS:
            H.case((i, name))
            key = getattr(sortkeys, name)
            before = Order(name, list(root))
            ok, got = H.attempt('sorted(%s)' % name, i, root.sorted, key)
            if ok:
                in_order(H, 'sorted(%s)' % name, got, list(root), before, i)
    for cls in (Statistics, RecordingStatistics, VoidRecordingStatistics, FrozenStatistics, FlatFrozenStatistics):
        s = cls()
        for name in KEYS:
            H.equal(list(s.sorted(getattr(sortkeys, name))), [], 'children of an empty %s' % cls.__name__, name)


SECTIONS = [lists, recorded]
