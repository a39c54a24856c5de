"""C09: random histories of child operations against an ordered dictionary."""
import itertools
from profiling.profiler import Profiler
from profiling.stats import RecordingStatistics as Rec, VoidRecordingStatistics as Void

RULE = ('all histories of up to 3 (thorough 4) child operations over 2 codes with all classes, random ones of up to 25 '
        'over 6 codes, against a model of ordered (code, class, hits, time, grandchildren); distinct = different history')


def codes(n):
    out = []
    for i in range(n):
        ns = {}
        exec('\n' * i + 'def f%d(): pass' % i, ns)
        out.append(ns['f%d' % i].__code__)
    return out


CODES = codes(8)


class Bad(Exception):
    pass


def dump(s):
    """The recorded content through the public interface."""
    return [(CODES.index(c.code), type(c).__name__, c.own_hits, c.deep_time, [CODES.index(g.code) for g in c]) for c in s]


class M(object):
    """The model of a child."""
    def __init__(self, cls, hits, time, grand):
        self.cls, self.hits, self.time, self.grand = cls, hits, time, grand


def check(H, s, model, base, inp):
    want = []
    for c, m in model:
        want.append((c, m.cls.__name__, m.hits, m.time, list(m.grand)))
    got = dump(s)
    ok = H.equal(got, want, 'children', inp)
    H.equal([id(x) for x in s.children], [id(x) for x in s], 'child list against iteration', inp)
    H.equal(len(s), len(want), 'length', inp)
    for c in range(len(CODES)):
        inn = any(k == c for k, _ in model)
        H.equal(CODES[c] in s, inn, 'contains %d' % c, inp)
        try:
            r = s.get_child(CODES[c])
            H.expect(inn and r.code is CODES[c], 'get_child %d' % c, inp)
        except KeyError:
            H.expect(not inn, 'get_child %d: KeyError' % c, inp)
    H.equal((s.own_hits, s.deep_time if type(s) is not Void else None), base, 'own measures', inp)
    return ok


def history(H, self_cls, ops):
    inp = dict(node=self_cls.__name__, history=ops)
    H.case(inp)
    s = self_cls(CODES[7])
    s.own_hits, s.deep_time = 5, 2.5
    base = (s.own_hits, s.deep_time if self_cls is not Void else None)
    model = []
    find = lambda c: next((m for k, m in model if k == c), None)
    for op in ops:
        name, c = op[0], op[1]
        m = find(c)
        try:
            if name == 'ensure':
                want = op[2] or self_cls
                r = s.ensure_child(CODES[c], op[2]) if op[2] else s.ensure_child(CODES[c])
                if m is None:
                    m = M(want, 0, 0.0 if want is Rec else 0, [])
                    model.append((c, m))
                elif m.cls is Void and want is Rec:
                    m.cls, m.hits = Rec, 0
                H.expect(s.get_child(CODES[c]) is r, 'ensure_child gives another node than it records', inp)
            elif name == 'hit':
                if m is None:
                    continue
                n = s.get_child(CODES[c])
                n.own_hits += 1
                n.deep_time += 1.0
                if m.cls is Rec:
                    m.hits += 1
                    m.time += 1.0
            elif name == 'grand':
                if m is None:
                    continue
                g = s.get_child(CODES[c]).ensure_child(CODES[op[2]], Rec)
                if op[2] not in m.grand:
                    m.grand.append(op[2])
                    g.deep_time = 3.0
                    if m.cls is Void:
                        m.time += 3.0
            elif name == 'add':
                n = Rec(CODES[c])
                n.own_hits, n.deep_time = 9, 9.0
                s.add_child(CODES[c], n)
                if m is None:
                    model.append((c, M(Rec, 9, 9.0, [])))
                else:
                    m.cls, m.hits, m.time, m.grand = Rec, 9, 9.0, []
            elif name == 'remove':
                try:
                    s.remove_child(CODES[c])
                    H.expect(m is not None, 'removing a missing child is quiet', inp)
                except KeyError:
                    H.expect(m is None, 'removing a child: KeyError', inp)
                model = [x for x in model if x[0] != c]
            elif name == 'discard':
                s.discard_child(CODES[c])
                model = [x for x in model if x[0] != c]
            elif name == 'clear':
                s.clear()
                model = []
                base = (0, 0.0 if self_cls is not Void else None)
                H.expect(s.code is CODES[7], 'clear loses the code', inp)
            find = lambda c, model=model: next((m for k, m in model if k == c), None)
        except Exception as e:
            H.fail('%r raised %r' % (op, e), inp)
            return
        if not check(H, s, model, base, inp):
            return


def moves(cs):
    out = []
    for c in cs:
        out += [('ensure', c, k) for k in (None, Rec, Void)]
        out += [('hit', c), ('grand', c, (c + 1) % 7), ('add', c), ('remove', c), ('discard', c)]
    return out + [('clear', 0)]


def small(H):
    for cls in (Rec, Void):
        for n in range(1, 5 if H.thorough else 4):
            for ops in itertools.product(moves([0, 1]), repeat=n):
                history(H, cls, ops)


def random_ones(H):
    ms = moves(range(6))
    for _ in range(4000 if H.thorough else 500):
        history(H, H.rng.choice([Rec, Void]), tuple(H.rng.choice(ms) for _ in range(H.rng.randint(4, 25))))


class P(Profiler):
    def run(self):
        yield


def exclude(H):
    for have in itertools.product([0, 1], repeat=3):
        for c in range(3):
            inp = dict(recorded=have, excluded=c)
            H.case(inp)
            p = P()
            for i, h in enumerate(have):
                if h:
                    p.stats.ensure_child(CODES[i]).own_hits = i + 1
            ok, _ = H.attempt('exclude_code', inp, p.exclude_code, CODES[c])
            H.equal([CODES.index(s.code) for s in p.stats], [i for i, h in enumerate(have) if h and i != c], 'left', inp)


SECTIONS = [small, random_ones, exclude]
