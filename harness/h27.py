"""C27: results on scripted clocks."""
import itertools
import time
from profiling.profiler import Profiler
from profiling.stats import RecordingStatistics
from profiling.tracing import TracingProfiler
from profiling.sampling import SamplingProfiler
from profiling.sampling.samplers import Sampler

RULE = ('profilers of all three kinds over scripted clocks (forwards, standing still, backwards), up to 3 runs with '
        'results before, during and after; distinct = different script of clock readings and class')


class Clock(object):
    def __init__(self):
        self.cpu, self.wall = 0.0, 0.0

    def __enter__(self):
        self.saved = time.clock, time.time
        time.clock = lambda: self.cpu
        time.time = lambda: self.wall
        return self

    def __exit__(self, *exc):
        time.clock, time.time = self.saved


class P(Profiler):
    def run(self):
        yield


class T(TracingProfiler):
    def run(self):
        yield


class S(SamplingProfiler):
    def run(self):
        yield


def codes():
    def f():
        pass

    def g():
        pass
    return f.__code__, g.__code__


def record(p):
    c, d = codes()
    a = RecordingStatistics(c)
    a.own_hits, a.deep_time = 3, 1.5
    b = RecordingStatistics(d)
    b.own_hits, b.deep_time = 2, .5
    a.add_child(d, b)
    p.stats.add_child(c, a)
    p.stats.own_hits, p.stats.deep_time = 7, 9.0


def state(s):
    return (s.own_hits, s.deep_time, [(id(c.code), state(c)) for c in s])


def make(kind):
    return {'P': P, 'T': T, 'S': lambda: S(sampler=Sampler())}[kind]()


def script(H, kind, runs):
    inp = dict(profiler=kind, runs=runs)
    H.case(inp)
    with Clock() as ck:
        p = make(kind)
        record(p)
        st = state(p.stats)
        ok, r = H.attempt('result before any start', inp, p.result)
        if not ok:
            return
        H.equal(tuple(r[1:]), (0.0, 0.0), 'times before any start', inp)
        H.expect(r[0] is p.stats and state(p.stats) == st, 'result changed something before any start', inp)
        for (c0, w0), laters in runs:
            ck.cpu, ck.wall = c0, w0
            ok, _ = H.attempt('start', inp, p.start)
            if not ok:
                return
            H.equal(state(p.stats), (0, 0.0, []), 'statistics after start', inp)
            record(p)
            st = state(p.stats)
            for n, (c, w) in enumerate(laters):
                ck.cpu, ck.wall = c, w
                if n == len(laters) - 1:
                    H.attempt('stop', inp, p.stop)
                ok, r = H.attempt('result', inp, p.result)
                if not ok:
                    return
                H.expect(abs(r[1] - max(0, c - c0)) < 1e-9, 'CPU time %r after start at %r, now %r' % (r[1], c0, c), inp)
                H.expect(abs(r[2] - max(0, w - w0)) < 1e-9, 'wall time %r after start at %r, now %r' % (r[2], w0, w), inp)
                H.expect(r[0] is p.stats, 'result without the live statistics', inp)
                H.equal(state(p.stats), st, 'statistics after result', inp)


def scripts(H):
    vals = [0.0, 1.0, 5.5, 3.25]
    points = [(c, w) for c in vals for w in (0.0, 10.0, 7.0)]
    for kind in 'PTS':
        for start in points:
            for a, b in itertools.product(points, points if H.thorough else points[::3]):
                script(H, kind, [(start, [a, b])])
        for s1, s2 in itertools.product(points[::2], points[::2]):
            script(H, kind, [(s1, [points[5], points[2]]), (s2, [points[1], points[9], points[0]])])


def random_scripts(H):
    for _ in range(3000 if H.thorough else 300):
        r = lambda: (round(H.rng.uniform(-5, 5), 3), round(H.rng.uniform(-1e6, 1e6), 3))
        script(H, H.rng.choice('PTS'), [(r(), [r() for _ in range(H.rng.randint(1, 4))]) for _ in range(H.rng.randint(1, 3))])


def hinted(H):
    for h in H.hints:
        v = h['values']
        try:
            c = [float(eval(str(v[k]).replace('?', ''))) for k in sorted(v) if k.startswith('time.clock')]
            w = [float(eval(str(v[k]).replace('?', ''))) for k in sorted(v) if k.startswith('time.time')]
        except Exception:
            continue
        n = min(len(c), len(w))
        pts = list(zip(c, w))[:n]
        for kind in 'PTS':
            if n > 1:
                script(H, kind, [(pts[0], pts[1:])])


def no_wall_start(H):
    """a clock standing at exactly zero is a start like any other"""
    for kind in 'PTS':
        script(H, kind, [((0.0, 0.0), [(2.0, 3.0)])])


SECTIONS = [scripts, random_scripts, hinted, no_wall_start]
