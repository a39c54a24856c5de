"""Random trees of statistics and the specifications of what is derived from them."""
import inspect
import os
from profiling.stats import FrozenStatistics, RecordingStatistics, VoidRecordingStatistics, Statistics

FIELDS = ('name', 'filename', 'lineno', 'module')
MEASURES = ('own_hits', 'deep_hits', 'own_time', 'deep_time')


def make_codes():
    out = []
    for name, f, line in [('a', 'x.py', 1), ('b', 'x.py', 5), ('a', 'y.py', 1), ('a', 'x.py', 9), ('<module>', 'x.py', 1),
                          ('c', 'z.py', 3), ('b', 'x.py', 5), ('d', 'x.py', 1), ('é', 'ü.py', 2)]:
        ns = {}
        src = '\n' * (line - 1) + ('pass' if name == '<module>' else 'def %s(): pass' % name)
        c = compile(src, f, 'exec')
        if name != '<module>':
            exec(c, ns)
            c = ns[name].__code__
        out.append(c)
    return out


CODES = make_codes()
# looking for the module of a code is slow; these are found at once
inspect.modulesbyfile.update({os.path.abspath('x.py'): 'json', os.path.abspath('y.py'): 'no such module',
                              os.path.abspath('z.py'): 'random', os.path.abspath('ü.py'): 'no such module'})


class Deep(list):
    """statistics built by hand: any measures, children in a list"""


class ListStatistics(Statistics):
    __slots__ = ('kids',)

    def __init__(self, *args):
        super(ListStatistics, self).__init__()
        for a, v in zip(FIELDS + ('own_hits', 'deep_time'), args):
            setattr(self, a, v)
        self.kids = []

    def __iter__(self):
        return iter(self.kids)

    def __len__(self):
        return len(self.kids)


def recorded(rng, n, deep=False, void=.3):
    root = RecordingStatistics()
    nodes = [root]
    for i in range(n):
        parent = nodes[-1] if deep else rng.choice(nodes[-8:] if rng.random() < .5 else nodes)
        code = CODES[i % len(CODES)] if deep else rng.choice(CODES)
        s = parent.ensure_child(code, VoidRecordingStatistics if rng.random() < void else RecordingStatistics)
        if not isinstance(s, VoidRecordingStatistics):
            s.own_hits = rng.randint(0, 4)
            s.deep_time = rng.choice([0.0, 0.5, 1.0, 2.25, 10.0])
        nodes.append(s)
    if rng.random() < .3:
        root.own_hits, root.deep_time = rng.randint(0, 3), rng.choice([0.0, 3.0])
    return root


def listed(rng, n, deep=False, cls=FrozenStatistics, fields=None):
    def one():
        if fields is not None:
            key = rng.choice(fields)
        else:
            key = (rng.choice([None, 'a', 'b', 'é']), rng.choice([None, 'x.py', 'y.py']), rng.choice([None, 0, 1, 7]),
                   rng.choice([None, 'm', 'm.n']))
        return cls(*(key + (rng.randint(0, 4), rng.choice([0.0, 0.5, 1.0, 2.25, 10.0]))))
    root = one()
    nodes = [root]
    for _ in range(n):
        p = nodes[-1] if deep else rng.choice(nodes[-8:] if rng.random() < .5 else nodes)
        s = one()
        (p.kids if cls is ListStatistics else p.children).append(s)
        nodes.append(s)
    return root


def levels(root):
    """all nodes level by level with their depth and parent number"""
    out = [(root, 0, None)]
    i = 0
    while i < len(out):
        for c in list(out[i][0]):
            out.append((c, out[i][1] + 1, i))
        i += 1
    return out


def recorded_values(s):
    return tuple(getattr(s, f) for f in FIELDS) + (s.own_hits, s.deep_time)


def dump(root, values=recorded_values):
    return [(p,) + values(s) for s, _, p in levels(root)]


def spec(root):
    """{node number: (own_hits, deep_hits, own_time, deep_time)} from the recorded measures alone"""
    lv = levels(root)
    kids = [[] for _ in lv]
    for i, (_, _, p) in enumerate(lv):
        if p is not None:
            kids[p].append(i)
    out = [None] * len(lv)
    for i in reversed(range(len(lv))):
        s = lv[i][0]
        sub = sum(out[k][3] for k in kids[i])
        if isinstance(s, VoidRecordingStatistics):
            h, t = 0, sub
        else:
            h, t = s.own_hits, s.deep_time
        out[i] = (h, h + sum(out[k][1] for k in kids[i]), max(0.0, t - sub), t)
    return lv, out


def samples(H, small=300, deep=(1, 2)):
    """(input description, root)"""
    rng = H.rng
    k = 4 if H.thorough else 1
    for i in range(small * k):
        n = rng.choice([0, 1, 2, 3, 5, 12, 40])
        kind = rng.choice(['recorded', 'frozen', 'listed'])
        state = 'seed %s/%s, %s tree #%d of %d nodes' % (H.section, H.seed, kind, i, n)
        yield state, (recorded(rng, n) if kind == 'recorded' else
                      listed(rng, n, cls=FrozenStatistics if kind == 'frozen' else ListStatistics))
    for i in range(3 * k):
        yield 'a chain of 1200 recorded nodes #%d' % i, recorded(rng, 1200, deep=True, void=(0, .5, .5)[i % 3])
        yield 'a chain of 3000 frozen nodes #%d' % i, listed(rng, 3000, deep=True)
