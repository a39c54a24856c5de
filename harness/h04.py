"""C04: samples on simulated call stacks."""
import itertools
import signal
import sys
from profiling.sampling import SamplingProfiler
from profiling.sampling.samplers import Sampler, ItimerSampler, TracingSampler
from profiling.stats import RecordingStatistics, VoidRecordingStatistics
from frames import Frame, codes, callpath, tree, show, chain, SPEEDUP

RULE = ('all sequences of up to 3 (thorough 4) samples of stacks up to depth 3 over 3 functions, random ones of up to '
        '60 samples and with restarts in between with base and ignored frames and codes; distinct = different sequence of stacks')
CODES = codes(6)


def stacks(ixs):
    f = None
    for i in ixs:
        f = Frame(CODES[i], f)
    return f


class Model(object):
    def __init__(self):
        self.t = {}

    def hit(self, path):
        for i in range(1, len(path)):
            self.t.setdefault(path[:i], ['VoidRecordingStatistics', 0])
        self.t[path] = ['RecordingStatistics', self.t.get(path, [None, 0])[1] + 1]


def compare(H, p, m, inp, n):
    got = tree(p.stats)
    want = {k: (v[0], v[1]) for k, v in m.t.items()}
    H.equal(show({k: v[:2] for k, v in got.items()}), show(want), 'tree after the samples', inp)
    H.expect(all(v[2] == 0 for v in got.values()), 'times were recorded: %r' % show(got), inp)
    H.equal(p.stats.deep_hits, n, 'inclusive hits of the tree', inp)
    H.equal(p.stats.own_hits, 0, 'own hits of the root', inp)


def run(H, seqs, **settings):
    inp = dict(samples=seqs, **{k: repr(v) for k, v in settings.items()})
    H.case(inp)
    p = SamplingProfiler(sampler=Sampler(), **settings)
    m = Model()
    keep = {}
    for s in seqs:
        f = stacks(s) if s not in keep else keep[s]
        keep[s] = f
        ok, _ = H.attempt('sample', inp, p.sample, f)
        if not ok:
            return
        m.hit(callpath(f, **settings))
    compare(H, p, m, inp, len(seqs))


def small(H):
    if SPEEDUP:
        return
    ss = [s for n in (1, 2, 3) for s in itertools.product(range(2), repeat=n)] + [(0, 1, 2), (2, 0, 2)]
    for n in range(1, 5 if H.thorough else 4):
        for seq in itertools.product(ss if n < 3 or H.thorough else ss[:9], repeat=n):
            if not H.time_left():
                return
            run(H, seq)


class Idle(Sampler):
    def run(self, profiler):
        yield


def restarts(H):
    """the profiler is started again between samples of the same and other frames"""
    if SPEEDUP:
        return
    for k in range(1500 if H.thorough else 250):
        pool = []
        for _ in range(5):
            pool.append(Frame(CODES[H.rng.randrange(4)], H.rng.choice(pool + [None])))
        inp = dict(n=k, frames=[repr(f) for f in pool], history=[])
        p = SamplingProfiler(sampler=Idle())
        H.attempt('start', inp, p.start)
        m, n = Model(), 0
        for _ in range(H.rng.randint(2, 10)):
            if H.rng.random() < .3:
                inp['history'].append('again')
                H.attempt('stop', inp, p.stop)
                H.attempt('start', inp, p.start)
                m, n = Model(), 0
            f = H.rng.choice(pool)
            inp['history'].append(pool.index(f))
            H.attempt('sample', inp, p.sample, f)
            m.hit(callpath(f))
            n += 1
        H.attempt('stop', inp, p.stop)
        H.case(inp)
        compare(H, p, m, inp, n)


def random_ones(H):
    if SPEEDUP:
        return
    for _ in range(3000 if H.thorough else 400):
        pool = [tuple(H.rng.randrange(6) for _ in range(H.rng.randint(1, 8))) for _ in range(8)]
        settings = {}
        if H.rng.random() < .5:
            settings['ignored_codes'] = tuple(H.rng.sample(CODES, H.rng.randint(1, 2)))
        if H.rng.random() < .3:
            settings['base_code'] = CODES[5]
        run(H, tuple(H.rng.choice(pool) for _ in range(H.rng.randint(3, 60))), **settings)


def frame_settings(H):
    """the sampled frame, or a caller, is an ignored frame or the base frame"""
    if SPEEDUP:
        return
    for depth in range(1, 6):
        for ig, ixs in itertools.product(range(depth), [tuple(range(depth)), (0,) * depth, (0, 1, 1, 0, 1)[:depth]]):
            for base in [None] + list(range(depth)):
                f = stacks(ixs)
                fs = chain(f)
                settings = dict(ignored_frames=(fs[ig],), base_frame=None if base is None else fs[base])
                inp = dict(functions=ixs, ignored=ig, base=base)
                H.case(inp)
                p = SamplingProfiler(sampler=Sampler(), **settings)
                m = Model()
                for x in (f, fs[0], f):
                    ok, _ = H.attempt('sample', inp, p.sample, x)
                    if ok:
                        m.hit(callpath(x, **settings))
                compare(H, p, m, inp, 3)


def deep(H):
    if SPEEDUP:
        return
    f = stacks([i % 6 for i in range(3000)])
    p = SamplingProfiler(sampler=Sampler())
    H.case('stack of 3000 frames')
    H.attempt('sample', 'stack of 3000 frames', p.sample, f)
    H.attempt('sample', 'stack of 3000 frames', p.sample, f)
    s, n = p.stats, 0
    while len(s):
        s, = s
        n += 1
    H.equal((n, s.own_hits), (3000, 2), 'depth and hits of the only leaf', 'stack of 3000 frames')


def real_frames(H):
    """samples of real frames"""
    p = SamplingProfiler(sampler=Sampler(), base_frame=sys._getframe())

    def leaf():
        p.sample(sys._getframe())

    def caller(n):
        if n:
            caller(n - 1)
        else:
            leaf()
            leaf()
    m = Model()
    for n in (0, 1, 2, 0):
        caller(n)
        for _ in range(2):
            m.hit((caller.__code__,) * (n + 1) + (leaf.__code__,))

    def mid():
        p.sample(sys._getframe())
        leaf()
    mid()
    m.hit((mid.__code__,))
    m.hit((mid.__code__, leaf.__code__))

    def late(first):
        if first:
            leaf()
        else:
            p.sample(sys._getframe())
    late(True)
    m.hit((late.__code__, leaf.__code__))
    late(False)
    m.hit((late.__code__,))
    H.case('real frames')
    compare(H, p, m, 'real frames', 12)


def signals(H):
    """signals take a sample of the interrupted frame"""
    p = SamplingProfiler(sampler=ItimerSampler(100), base_frame=sys._getframe())
    old = signal.getsignal(signal.SIGPROF)
    signal.signal(signal.SIGPROF, signal.SIG_IGN)
    try:
        with p:
            h = signal.getsignal(signal.SIGPROF)

            def f():
                h(signal.SIGPROF, sys._getframe())

            def g():
                f()
                h(signal.SIGPROF, sys._getframe())
            g()
            f()
    finally:
        signal.signal(signal.SIGPROF, old)
    m = Model()
    m.hit((g.__code__, f.__code__))
    m.hit((g.__code__,))
    m.hit((f.__code__,))
    H.case('signals')
    compare(H, p, m, 'signals', 3)


SECTIONS = [small, random_ones, restarts, frame_settings, deep, real_frames, signals]
