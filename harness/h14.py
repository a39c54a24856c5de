"""C14: histories of pauses, resumes and readings against a direct bookkeeping."""
import itertools
import threading
from profiling.tracing import timers
from profiling.tracing.timers import ContextualTimer, GreenletTimer, ThreadTimer
try:
    import greenlet
except ImportError:
    greenlet = None

RULE = ('histories of up to 5 operations on two contexts, exhaustively, and random ones of up to 60 on five contexts (zero, empty, '
        'tuples among them) with clock steps of every sign; switches among real and made-up greenlets; every reading exact '
        '(binary fractions); distinct = history')


class Clock(object):
    def __init__(self):
        self.now = 100.0

    def __call__(self):
        return self.now


def make(clock, current=None):
    class T(ContextualTimer):
        def detect_context(self):
            return current[0]
    t = T()
    t.clock = clock
    return t


class Model(object):
    def __init__(self):
        self.state = {}

    def read(self, c, now):
        base, since = self.state.get(c, (0, 0))
        return base if since is None else base + now - since

    def running(self, c):
        return c in self.state and self.state[c][1] is not None

    def pause(self, c, now):
        self.state[c] = self.read(c, now), None

    def resume(self, c, now):
        self.state[c] = self.state.get(c, (0, 0))[0], now


def play(H, ops, contexts, detect):
    """ops: (operation, context index, clock step)"""
    clock, current = Clock(), [None]
    other = make(clock, current)
    t, m = make(clock, current), Model()
    for n, (op, i, dt) in enumerate(ops):
        clock.now += dt
        c = contexts[i]
        if op == 'resume' and m.running(c):
            op = 'read'
        inp = dict(history=[(o, contexts[j], d) for o, j, d in ops[:n + 1]], detected=bool(detect))
        f = {'pause': t.pause, 'resume': t.resume, 'read': t}[op]
        current[0] = c if detect else 'someone else'
        ok, r = H.attempt(op, inp, f) if detect else H.attempt(op, inp, f, c)
        if not ok:
            return
        if op == 'read':
            if not H.equal(r, m.read(c, clock.now), 'the time of %r' % (c,), inp):
                return
        else:
            getattr(m, op)(c, clock.now)
            getattr(other, op)(c)
        for late in (0, 1.5, -2.25):
            clock.now += late
            for k in contexts:
                current[0] = k if detect == 2 else 'someone else'
                r = t() if detect == 2 else t(k)
                if not H.equal(r, m.read(k, clock.now), 'the time of %r at %+g' % (k, late), inp):
                    return
            clock.now -= late


def exhaustive(H):
    steps = list(itertools.product(('pause', 'resume', 'read'), (0, 1)))
    n = 5 if H.thorough else 4
    for ops in itertools.product(steps, repeat=n):
        H.case(ops)
        k = len(H.distinct)
        play(H, [(o, i, [0.5, 2.0, 0.0, 1.25, 0.25][(j + k) % 5]) for j, (o, i) in enumerate(ops)], ('a', 'b'), k % 3)
        if not H.time_left():
            return


def random_histories(H):
    contexts = (0, '', 7, (), 'main', (1, 2), -1, False or 12345678901234567890)
    for n in range(2000 if H.thorough else 300):
        cs = H.rng.sample(contexts, 5)
        ops = [(H.rng.choice(['pause', 'resume', 'resume', 'read']), H.rng.randrange(5), H.rng.choice([0, .25, .5, 1, 8, -1, 4096]))
               for _ in range(H.rng.randint(1, 60))]
        H.case((n, ops))
        play(H, ops, cs, n % 3)


class FakeGreenlet(object):
    current = None

    def __init__(self):
        self.hook = None

    def settrace(self, f):
        self.hook = f

    def getcurrent(self):
        return FakeGreenlet.current


class G(object):
    pass


def switches(H):
    """random switches among made-up greenlets; the hook only gets (origin, target)"""
    for n in range(400 if H.thorough else 100):
        lib, clock = FakeGreenlet(), Clock()
        t = GreenletTimer()
        t.clock = clock
        try:
            t.greenlet = lib
        except AttributeError:
            GreenletTimer.greenlet = lib
        gs = [G() for _ in range(4)]
        FakeGreenlet.current = gs[0]
        t.start(None)
        m = Model()
        log = []
        for _ in range(H.rng.randint(1, 30)):
            clock.now += H.rng.choice([0, .5, 1, 3])
            a = FakeGreenlet.current
            b = H.rng.choice(gs)        # or itself
            # the hook is called when the target is the current one already
            FakeGreenlet.current = b
            event = H.rng.choice(['switch', 'throw'])
            log.append((gs.index(a), gs.index(b), event, clock.now))
            ok, _ = H.attempt('switch', log, lib.hook, event, (a, b))
            if not ok:
                break
            m.pause(id(a), clock.now)
            m.resume(id(b), clock.now)
            clock.now += H.rng.choice([0, .5])
            for i, g in enumerate(gs):
                H.equal(t(id(g)), m.read(id(g), clock.now), 'the time of greenlet %d' % i, log)
            H.equal(t(), m.read(id(b), clock.now), 'the time of the current greenlet', log)
        H.case(log)
        t.stop()
        H.equal(lib.hook, None, 'the hook after stopping', log)


def real_greenlets(H):
    if greenlet is None or not hasattr(greenlet, 'settrace'):
        return
    for n in range(20):
        clock = Clock()
        t = GreenletTimer()
        t.clock = clock
        t.start(None)
        spent = {}
        rng = H.rng
        out = []

        def work(name):
            mine = greenlet.getcurrent()
            t0 = None
            for _ in range(5):
                d = rng.choice([.25, .5, 1, 2])
                before = t()
                clock.now += d
                out.append((name, t() - before, d))
                spent[name] = spent.get(name, 0) + d
                out.append((name + ' in all', t(id(mine)), spent[name]))
                mine.parent.switch()
        gs = [greenlet.greenlet(lambda i=i: work('g%d' % i)) for i in range(3)]
        try:
            for _ in range(5):
                for i in rng.sample(range(3), 3):
                    gs[i].switch()
                    clock.now += .125
        finally:
            t.stop()
        H.case(n)
        for name, got, want in out:
            H.equal(got, want, 'the time of %s' % name, 'real greenlets #%d' % n)


SECTIONS = [exhaustive, random_histories, switches, real_greenlets]
