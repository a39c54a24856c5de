"""C15: events of many threads at made-up thread clocks, against a direct bookkeeping."""
import sys
import threading
import time
from profiling import utils
from profiling.sampling import samplers, SamplingProfiler
from profiling.sampling.samplers import TracingSampler
import frames

RULE = ('random events of 1 to 6 threads with clock steps around the interval, several intervals, stops and restarts; 25000 samples '
        'with threads that die and new ones (three clean-ups); real threads; distinct = history')


class Fake(object):
    """thread clock, thread ids and living threads made up"""

    def __init__(self):
        self.tid, self.now, self.living = 1, 0.0, set([1])
        self.samples = []
        self.hooks = []

    cost = 0.0

    def sample(self, frame):
        self.samples.append(frame)
        self.now += self.cost        # a sample takes some time itself

    def __enter__(self):
        self.saved = []
        fake = self

        class Thread(object):
            def __getattr__(self, name):
                return getattr(sys.modules['_thread'], name)

            @staticmethod
            def get_ident():
                return fake.tid
        self.patch(samplers, 'thread_clock', lambda: self.now)
        self.patch(utils, 'thread_clock', lambda: self.now)
        self.patch(time, 'clock_gettime', lambda *a: self.now)
        self.patch(samplers, '_thread', Thread())
        self.patch(threading, 'get_ident', lambda: self.tid)
        self.patch(sys, '_current_frames', lambda: dict.fromkeys(self.living))
        self.patch(sys, 'setprofile', self.hooks.append)
        self.patch(threading, 'setprofile', lambda f: None)
        return self

    def patch(self, where, name, v):
        if hasattr(where, name):
            self.saved.append((where, name, getattr(where, name)))
            setattr(where, name, v)

    def __exit__(self, *e):
        for where, name, v in reversed(self.saved):
            setattr(where, name, v)


class Model(object):
    def __init__(self, interval):
        self.interval, self.last = interval, {}

    def event(self, tid, now):
        if now - self.last.get(tid, 0) < self.interval:
            return False
        self.last[tid] = now
        return True


def play(H, interval, events, restart, what):
    with Fake() as fake:
        s, m = TracingSampler(interval), Model(interval)
        other = TracingSampler(interval)        # another sampler has its own threads
        s.start(fake)
        other.start(Fake())
        hook, other_hook = fake.hooks[0], fake.hooks[1]
        for n, (tid, now, event) in enumerate(events):
            if n in restart:
                s.stop()
                del fake.hooks[:]
                s.start(fake)
                hook = fake.hooks[0]
            fake.tid, fake.now = tid, now
            fake.living.add(tid)
            frame = object()
            del fake.samples[:]
            if n % 3 == 0:
                other_hook(object(), 'call', None)
                fake.now = now
            fake.cost = (0, interval / 8, interval * 3 / 4)[n % 3]
            hook(frame, event, None)
            want = [frame] if m.event(tid, now) else []
            if len(fake.samples) != len(want) or any(a is not b for a, b in zip(fake.samples, want)):
                H.fail('%d samples at event %d, expected %d' % (len(fake.samples), n, len(want)),
                       dict(interval=interval, events=events[:n + 1][-40:], earlier=max(0, n - 39), restarts=sorted(restart)))
                return


def random_events(H):
    for n in range(1500 if H.thorough else 300):
        interval = H.rng.choice([1e-3, .5, 1.0, 4.0])
        threads = H.rng.sample([0, 1, 2, 7, 140001, -5], H.rng.randint(1, 6))
        clock = dict((t, H.rng.choice([0, 0, interval / 2, 10.0])) for t in threads)
        events = []
        for _ in range(H.rng.randint(1, 60)):
            t = H.rng.choice(threads)
            clock[t] += interval * H.rng.choice([0, .25, .5, .75, 1, 1, 1.25, 2, 10])
            events.append((t, clock[t], H.rng.choice(['call', 'return', 'c_call', 'c_return', 'exception'])))
        restart = set(H.rng.sample(range(len(events)), min(len(events), H.rng.randint(0, 2))))
        H.case((n, interval, events))
        play(H, interval, events, restart, n)


def clean_up(H):
    """threads die and new ones come; living ones keep their times for ever, dead ones are forgotten by 10000 samples later"""
    for mode in ('some die', 'all but one die', 'none dies', 'very many') * (3 if H.thorough else 1):
        with Fake() as fake:
            s = TracingSampler(1.0)
            s.start(fake)
            hook = fake.hooks[0]
            sleepers = [100 + i for i in range(3000 if mode == 'very many' else 20)]     # they sleep between two events a long time apart
            clock = {}
            m = Model(1.0)

            def event(tid, dt):
                clock[tid] = clock.get(tid, 0) + dt
                fake.tid, fake.now = tid, clock[tid]
                fake.living.add(tid)
                del fake.samples[:]
                hook(object(), 'call', None)
                want = m.event(tid, clock[tid])
                H.expect(len(fake.samples) == (1 if want else 0), '%d samples of thread %d after %d samples, expected %d' % (
                    len(fake.samples), tid, total[0], want), dict(mode=mode, last=m.last.get(tid), now=clock[tid]))
                total[0] += want
            total = [0]
            fake.living = set([1])
            for t in sleepers:
                event(t, 5.0)
            dead = {'some die': sleepers[::2], 'all but one die': sleepers[1:], 'none dies': [], 'very many': sleepers[:7]}[mode]
            H.case(mode)
            for round_ in range(3):
                for t in dead:
                    fake.living.discard(t)
                for i in range(10000 + 50):
                    event(1, 1.0)
                    if i % 1000 == 500:
                        event(1, 0.5)
                        event(1, 0.5)
                for t in dead:
                    m.last.pop(t, None)     # forgotten
                    clock[t] = 0
                for t in sleepers:
                    if t not in dead:
                        event(t, 0.5)
                known = getattr(s, 'sampled_times', None)
                if isinstance(known, dict):
                    H.equal(sorted(known), sorted(set(m.last) | set([1])), 'threads known after the clean-up', mode)
                for t in sleepers:
                    if t not in dead:
                        event(t, 0.5)
                # dead ids are used again by new threads, whose clocks start at zero
                for t in dead:
                    event(t, 0.75)
                    event(t, 0.5)
                    event(t, 0.75)
                    event(t, 0.25)


def real_threads(H):
    """the real hooks in real threads: samples of a thread are an interval of its CPU time apart"""
    interval = 2e-3
    got = {}

    class P(object):
        def sample(self, frame):
            got.setdefault(threading.current_thread().name, []).append((utils.thread_clock(), frame.f_code.co_name))

    def spin(n):
        def step():
            return sum(range(50))
        for _ in range(n):
            step()
    p = P()
    s = TracingSampler(interval)
    before = utils.thread_clock()
    s.start(p)
    try:
        ts = [threading.Thread(target=spin, args=(6000,), name='worker %d' % i) for i in range(3)]
        for t in ts:
            t.start()
        spin(6000)
        for t in ts:
            t.join()
    finally:
        s.stop()
    H.case('real threads')
    for name, l in got.items():
        times = [t for t, _ in l]
        H.expect(all(b - a > interval * .2 for a, b in zip(times, times[1:])), 'samples of %s are closer than the interval' % name, times[:20])
    H.expect(len(got) == 4, 'every thread is sampled: %s' % sorted(got), 'real threads')


SECTIONS = [random_events, clean_up, real_threads]
