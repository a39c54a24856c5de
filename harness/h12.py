"""C12: the real hooks, handlers and timers before, during and after profiling."""
import gc
import itertools
import signal
import sys
import threading
import time
from profiling.tracing import TracingProfiler
from profiling.tracing.timers import Timer, ThreadTimer, GreenletTimer
from profiling.sampling import SamplingProfiler
from profiling.sampling.samplers import Sampler, ItimerSampler, TracingSampler
try:
    import greenlet
    greenlet.settrace
except (ImportError, AttributeError):
    greenlet = None

RULE = ('all profilers with all timers/samplers, previous handlers default/ignored/function, previous interval timers, '
        'every installing call failing once, stops after errors; distinct = different scenario')


def thread_hook():
    return threading.getprofile() if hasattr(threading, 'getprofile') else threading._profile_hook


class Boom(Exception):
    pass


class Faults(object):
    """Make one of the installing calls fail."""
    PLACES = {'sys.setprofile': (sys, 'setprofile'), 'threading.setprofile': (threading, 'setprofile'),
              'signal.signal': (signal, 'signal'), 'signal.setitimer': (signal, 'setitimer')}

    def __init__(self, place):
        self.place = place
        self.hit = False

    def __enter__(self):
        if self.place in self.PLACES:
            m, n = self.PLACES[self.place]
            self.saved = m, n, getattr(m, n)

            def fail(*a, **k):
                if not self.hit:
                    self.hit = True
                    raise Boom(self.place)
                return self.saved[2](*a, **k)
            setattr(m, n, fail)
        return self

    def __exit__(self, *exc):
        if self.place in self.PLACES:
            setattr(*self.saved)


class CustomTimer(Timer):
    def __init__(self, fail):
        self.fail = fail
        self.log = []

    def run(self, profiler):
        self.log.append('begin')
        if self.fail == 'start':
            raise Boom('timer start')
        yield
        self.log.append('end')
        if self.fail == 'stop':
            raise Boom('timer stop')


class CustomSampler(Sampler):
    def __init__(self, fail):
        self.fail = fail
        self.log = []

    def run(self, profiler):
        self.log.append('begin')
        if self.fail == 'start':
            raise Boom('sampler start')
        yield
        self.log.append('end')
        if self.fail == 'stop':
            raise Boom('sampler stop')


def state():
    return {'sys': sys.getprofile(), 'threading': thread_hook(), 'handler': signal.getsignal(signal.SIGPROF),
            'greenlet': greenlet.gettrace() if greenlet else None,
            'itimer': tuple(signal.getitimer(signal.ITIMER_PROF))}


def handler(signum, frame):
    pass


def reset():
    sys.setprofile(None)
    threading.setprofile(None)
    signal.setitimer(signal.ITIMER_PROF, 0)
    signal.signal(signal.SIGPROF, signal.SIG_IGN)
    if greenlet:
        greenlet.settrace(None)


def helper():
    return sys._getframe()


def stale(x, y):
    return (abs(x[0] - y[0]) > 1 or abs(x[1] - y[1]) > 1e-3)


def compare(H, before, after, what, inp, default):
    for k in ('sys', 'threading', 'greenlet'):
        H.expect(after[k] is before[k] or after[k] == before[k], '%s: %s hook %r, before %r' % (what, k, after[k], before[k]), inp)
    want = before['handler']
    if want == signal.SIG_DFL and default:
        want = signal.SIG_IGN
    ok = after['handler'] == want or (after['handler'] in (signal.SIG_DFL,) and before['handler'] == signal.SIG_DFL and not default)
    H.expect(ok, '%s: signal handler %r, before %r' % (what, after['handler'], before['handler']), inp)
    H.expect(not stale(after['itimer'], before['itimer']), '%s: interval timer %r, before %r' % (
        what, after['itimer'], before['itimer']), inp)


def builders():
    out = {}
    for n, f in (('Timer', Timer), ('ThreadTimer', ThreadTimer), ('GreenletTimer', GreenletTimer if greenlet else None),
                 ('custom', lambda: CustomTimer(None)), ('start fails', lambda: CustomTimer('start')),
                 ('stop fails', lambda: CustomTimer('stop'))):
        if f:
            out['tracing/' + n] = lambda f=f: TracingProfiler(timer=f())
    for n, f in (('itimer', lambda: ItimerSampler(97.5)), ('tracing', lambda: TracingSampler(0.0)),
                 ('custom', lambda: CustomSampler(None)), ('start fails', lambda: CustomSampler('start')),
                 ('stop fails', lambda: CustomSampler('stop'))):
        out['sampling/' + n] = lambda f=f: SamplingProfiler(sampler=f())
    return out


def hook_works(H, p, hook, inp, what):
    f = helper()
    before = sum(1 for _ in walk(p.stats, f.f_code))
    hook(f, 'call', None)
    hits = max([s.own_hits for s in walk(p.stats, f.f_code)] or [0])
    H.expect(hits >= 1, '%s does not record into this profiler' % what, inp)


def walk(stats, code):
    todo = [stats]
    while todo:
        s = todo.pop()
        if getattr(s, 'code', None) is code:
            yield s
        todo.extend(s)


def scenario(H, name, build, prev, itimer, fault, rounds=2):
    inp = dict(profiler=name, previous_handler=str(prev), previous_timer=itimer, failing=fault)
    H.case(inp)
    reset()
    signal.signal(signal.SIGPROF, prev)
    signal.setitimer(signal.ITIMER_PROF, *itimer)
    try:
        p = build()
        part = getattr(p, 'timer', None) or getattr(p, 'sampler', None)
        for r in range(rounds):
            before = state()
            err = None
            with Faults(fault if r == 0 else None) as fl:
                try:
                    p.start()
                except Exception as e:
                    err = e
            broken = 'start fails' in name or fl.hit
            H.expect((err is not None) == broken, 'start: %r' % (err,), inp)
            if err is not None:
                H.expect(isinstance(err, Boom), 'start raised %r' % (err,), inp)
                compare(H, before, state(), 'failed start', inp, 'itimer' in name and fl.hit and fault != 'signal.signal')
                H.expect(not part.is_running(), 'failed start: timer or sampler still running', inp)
                H.expect(not p.is_running(), 'failed start: running', inp)
                continue
            sysh, thrh = sys.getprofile(), thread_hook()
            itimer_now = tuple(signal.getitimer(signal.ITIMER_PROF))
            handler_now = signal.getsignal(signal.SIGPROF)
            H.expect(part.is_running(), 'timer or sampler not running', inp)
            tracing = 'tracing' in name
            if tracing and sysh is not None:
                sys.setprofile(None)    # don't trace the checks
                sys.setprofile
                hook_works(H, p, sysh, inp, 'the interpreter hook')
                if thrh is not None:
                    hook_works(H, p, thrh, inp, 'the threading hook')
                sys.setprofile(sysh)
            H.expect((sysh is not None) == tracing, 'interpreter hook %r while running' % (sysh,), inp)
            H.expect((thrh is not None) == tracing, 'threading hook %r while running' % (thrh,), inp)
            if 'itimer' in name:
                H.expect(abs(itimer_now[1] - 97.5) < .1 and 90 < itimer_now[0] < 98, 'timer %r while running' % (itimer_now,), inp)
                H.expect(callable(handler_now), 'handler %r while running' % (handler_now,), inp)
                if callable(handler_now):
                    f = helper()
                    n = sum(s.own_hits for s in walk(p.stats, f.f_code))
                    handler_now(signal.SIGPROF, f)
                    H.expect(sum(s.own_hits for s in walk(p.stats, f.f_code)) == n + 1, 'a signal takes no sample', inp)
            else:
                H.expect(handler_now == before['handler'], 'handler %r while running' % (handler_now,), inp)
            try:
                p.stop()
            except Exception as e:
                H.expect(isinstance(e, Boom) and 'stop fails' in name, 'stop raised %r' % (e,), inp)
            else:
                H.expect('stop fails' not in name, 'the error of stop() is lost', inp)
            compare(H, before, state(), 'stop', inp, 'itimer' in name)
            H.expect(not part.is_running(), 'stop: timer or sampler still running', inp)
            H.expect(not p.is_running(), 'stop: running', inp)
            log = getattr(part, 'log', None)
            H.expect(log is None or log[-2:] == ['begin', 'end'], 'timer or sampler not stopped: %r' % (log,), inp)
    finally:
        reset()


def scenarios(H):
    prevs = [signal.SIG_DFL, signal.SIG_IGN, handler]
    itimers = [(0, 0), (55.0, 33.0), (44.0, 0)]
    for name, build in sorted(builders().items()):
        for prev, itimer in itertools.product(prevs, itimers):
            for fault in [None] + sorted(Faults.PLACES):
                scenario(H, name, build, prev, itimer, fault)


def many_threads(H):
    """as before while many threads are waiting"""
    go = threading.Event()
    ts = [threading.Thread(target=go.wait) for _ in range(12)]
    for t in ts:
        t.daemon = True
        t.start()
    try:
        for name, build in sorted(builders().items()):
            for prev, itimer in ((handler, (55.0, 33.0)), (signal.SIG_IGN, (0, 0))):
                scenario(H, name + ' (many threads)', build, prev, itimer, None)
    finally:
        go.set()
        for t in ts:
            t.join(10)


def block_errors(H):
    """profiling stopped by an error in the block"""
    for name, build in sorted(builders().items()):
        if 'fails' in name:
            continue
        inp = dict(profiler=name, block='raises')
        H.case(inp)
        reset()
        before = state()
        try:
            with build():
                raise Boom('block')
        except Boom:
            pass
        except Exception as e:
            H.fail('ended with %r' % (e,), inp)
        compare(H, before, state(), 'block raised', inp, True)
        reset()


def abandoned(H):
    """the deferral runs too when a started profiler is collected"""
    reset()


def foreign(H):
    """a tracing profiler refuses to replace another hook"""
    def other(*a):
        pass
    for timer in (Timer, ThreadTimer):
        for thr in (None, other):
            inp = dict(foreign_hook=True, timer=timer.__name__, threading=thr is not None)
            H.case(inp)
            reset()
            t = timer()
            p = TracingProfiler(timer=t)
            err = None
            sys.setprofile(other)
            threading.setprofile(thr)
            try:
                p.start()
            except BaseException as e:
                err = e
            got, got2 = sys.getprofile(), thread_hook()
            reset()
            H.expect(type(err) is RuntimeError, 'start: %r' % (err,), inp)
            H.expect(got is other, 'interpreter hook %r afterwards' % (got,), inp)
            H.expect(got2 is thr, 'threading hook %r afterwards' % (got2,), inp)
            H.expect(not t.is_running() and not p.is_running(), 'running afterwards', inp)
            ok, _ = H.attempt('start after the other hook is gone', inp, p.start)
            if ok:
                p.stop()
            reset()


def new_threads(H):
    """threads started while profiling are hooked, later ones are not"""
    for name in ('tracing/Timer', 'sampling/tracing'):
        inp = dict(profiler=name, threads='started during and after')
        H.case(inp)
        reset()
        p = builders()[name]()
        seen = []

        def work(k):
            seen.append((k, sys.getprofile() is not None))
        with p:
            t = threading.Thread(target=work, args=('during',))
            t.start()
            t.join()
        t = threading.Thread(target=work, args=('after',))
        t.start()
        t.join()
        reset()
        H.equal(dict(seen), {'during': True, 'after': False}, 'hook in threads', inp)


SECTIONS = [scenarios, many_threads, block_errors, foreign, new_threads]
