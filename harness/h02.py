"""C02: profile events of simulated and real programs."""
import itertools
import sys
from profiling.tracing import TracingProfiler
from profiling.tracing.timers import Timer
from frames import Frame, codes, callpath, tree, show, chain, hook_of, SPEEDUP

RULE = ('all event sequences of up to 3 (thorough 4) events over 5 frames, random walks of a call stack of up to 120 events with '
        'base and ignored settings, attaching in the middle of a program; distinct = different sequence of events')
CODES = codes(6)
EVENTS = ['call', 'return', 'c_call', 'c_return', 'c_exception']


class Ticks(Timer):
    def __init__(self):
        self.t = 0.0

    def __call__(self):
        self.t += .25
        return self.t


class Model(object):
    def __init__(self):
        self.t = {}

    def event(self, path, ev):
        if ev.startswith('c_'):
            return
        for i in range(1, len(path)):
            self.t.setdefault(path[:i], ['VoidRecordingStatistics', 0])
        if ev == 'call':
            self.t[path] = ['RecordingStatistics', self.t.get(path, [None, 0])[1] + 1]


def last_start(events):
    return max([0] + [i for i, (_, ev) in enumerate(events) if ev == 'again'])


def run(H, events, inp, **settings):
    """events: (frame, event)"""
    H.case(inp)
    p = TracingProfiler(timer=Ticks(), **settings)
    hook = hook_of(p)
    m = Model()
    for f, ev in events:
        if ev == 'again':
            hook, m = hook_of(p), Model()
            continue
        ok, r = H.attempt('event', inp, hook, f, ev, len)
        if not ok:
            return
        m.event(callpath(f, **settings), ev)
    got = tree(p.stats)
    H.equal(show({k: v[:2] for k, v in got.items()}), show({k: tuple(v) for k, v in m.t.items()}), 'tree after the events', inp)
    H.equal(p.stats.own_hits, 0, 'own hits of the root', inp)
    H.equal(p.stats.deep_hits, sum(1 for _, ev in events[last_start(events):] if ev == 'call'), 'hits of the whole tree', inp)


def small(H):
    if SPEEDUP:
        return
    a = Frame(CODES[0], None)
    ab = Frame(CODES[1], a)
    aba = Frame(CODES[0], ab)
    ab2 = Frame(CODES[1], a)
    b = Frame(CODES[1], None)
    moves = [(f, e) for f in (a, ab, aba, ab2, b) for e in EVENTS[:3]]
    for n in range(1, 5 if H.thorough else 4):
        for seq in itertools.product(moves, repeat=n):
            if not H.time_left():
                return
            run(H, seq, [(repr(f), e) for f, e in seq])


def random_walks(H):
    if SPEEDUP:
        return
    for k in range(2000 if H.thorough else 400):
        settings = {}
        if H.rng.random() < .5:
            settings['ignored_codes'] = tuple(H.rng.sample(CODES, H.rng.randint(1, 2)))
        if H.rng.random() < .3:
            settings['base_code'] = CODES[5]
        top = None
        for _ in range(H.rng.randint(0, 4)):    # attached in the middle
            top = Frame(CODES[H.rng.randrange(6)], top)
        fs = chain(top)
        if fs and H.rng.random() < .4:
            settings['base_frame'] = H.rng.choice(fs)
        if fs and H.rng.random() < .3:
            settings['ignored_frames'] = (H.rng.choice(fs),)
        events = []
        for _ in range(H.rng.randint(3, 120)):
            x = H.rng.random()
            if top is None or x < .45:
                top = Frame(CODES[H.rng.randrange(6)], top)
                events.append((top, 'call'))
            elif x < .6:
                events.append((top, H.rng.choice(EVENTS[2:])))
            elif x < .62:
                events.append((None, 'again'))      # the profiler is started again
            elif x < .65:
                events.append((H.rng.choice(chain(top)), 'call'))    # a generator is resumed
            else:
                events.append((top, 'return'))
                top = top.f_back
        run(H, events, dict(n=k, events=[(repr(f), e) for f, e in events], settings=sorted(settings)), **settings)


def deep(H):
    if SPEEDUP:
        return
    f = None
    for i in range(1500):
        f = Frame(CODES[i % 6], f)
    p = TracingProfiler(timer=Ticks())
    hook = hook_of(p)
    H.case('stack of 1500 frames')
    for ev in ('call', 'return', 'call'):
        H.attempt('event', 'stack of 1500 frames', hook, f, ev, None)
    s, n = p.stats, 0
    while len(s):
        s, = s
        n += 1
    H.equal((n, s.own_hits), (1500, 2), 'depth and hits of the only leaf', 'stack of 1500 frames')


def real_program(H):
    """a real program under the profiler"""
    def leaf(n):
        return len(str(n))

    def fact(n):
        return leaf(n) if n == 0 else fact(n - 1)

    def gen():
        yield leaf(1)
        yield leaf(2)

    def fails():
        raise ValueError

    def main():
        fact(3)
        fact(0)
        list(gen())
        try:
            fails()
        except ValueError:
            pass
        leaf(0)
    p = TracingProfiler(timer=Ticks(), base_frame=sys._getframe())
    p.start()
    main()
    p.stop()
    H.case('real program')
    t = {k: v[1] for k, v in tree(p.stats).items() if k and k[0] is main.__code__}
    m, f, l, g, x = (y.__code__ for y in (main, fact, leaf, gen, fails))
    want = {(m,): 1, (m, f): 2, (m, f, l): 1, (m, f, f): 1, (m, f, f, f): 1, (m, f, f, f, f): 1, (m, f, f, f, f, l): 1,
            (m, g): 3, (m, g, l): 2, (m, x): 1, (m, l): 1}
    H.equal(show(t), show(want), 'hits', 'real program')


def attached_late(H):
    """started inside a call: its callers appear without hits, and are counted once they are entered"""
    p = TracingProfiler(timer=Ticks(), base_frame=sys._getframe())

    def leaf():
        pass

    def outer(first):
        if first:
            p.start()
        leaf()
        if first:
            outer(False)
    outer(True)
    outer(False)
    p.stop()
    H.case('attached late')
    o, l = outer.__code__, leaf.__code__
    t = {k: v[:2] for k, v in tree(p.stats).items() if k[0] is o and k[-1] in (o, l)}
    R = 'RecordingStatistics'
    H.equal(show(t), show({(o,): (R, 1), (o, l): (R, 2), (o, o): (R, 1), (o, o, l): (R, 1)}), 'hits', 'attached late')


SECTIONS = [small, random_walks, deep, real_program, attached_late]
