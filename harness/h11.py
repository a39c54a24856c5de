"""C11: all short histories of start/stop on the real classes."""
import itertools
import sys
import threading
import signal
from profiling.utils import Runnable
from profiling.profiler import Profiler
from profiling.stats import RecordingStatistics
from profiling.tracing import TracingProfiler
from profiling.tracing.timers import Timer, ThreadTimer, ContextualTimer
from profiling.sampling import SamplingProfiler
from profiling.sampling.samplers import Sampler, ItimerSampler, TracingSampler

RULE = ('all histories of up to 4 (thorough 5) start/stop operations over run() bodies which succeed, raise, do not '
        'yield, yield a value or yield twice, for 7 classes; context managers left in 4 ways; distinct = different history')
BEGIN = ['ok', 'raise', 'empty', 'value', 'false', 'interrupt']
END = ['ok', 'raise', 'twice']


def make(base, plan, log, **kw):
    class R(base):
        def run(self, *a, **k):
            how = plan.pop(0) if plan else 'ok'
            log.append(('begin', how, a, k))
            if how == 'raise':
                raise ValueError('begin')
            if how == 'interrupt':
                raise KeyboardInterrupt
            if how == 'empty':
                return
            if how == 'value':
                yield 42
            elif how == 'false':
                yield 0
            else:
                yield
            how = plan.pop(0) if plan else 'ok'
            log.append(('end', how))
            if how == 'raise':
                raise KeyError('end')
            if how == 'twice':
                yield
    return R(**kw)


CLASSES = [(Runnable, {}, 2), (Profiler, {}, 0), (Timer, {}, 1), (ContextualTimer, {}, 1), (Sampler, {}, 1),
           (TracingProfiler, {}, 0), (SamplingProfiler, {'sampler': None}, 0)]


def recorded(o):
    s = getattr(o, 'stats', None)
    if s is None:
        return None
    return (s.own_hits, s.deep_time, [(id(c.code), c.own_hits, c.deep_time) for c in s])


def record(o):
    s = getattr(o, 'stats', None)
    if s is not None:
        c = s.ensure_child(record.__code__, RecordingStatistics)
        c.own_hits += 1
        s.own_hits += 1


EXPECT = {'ok': None, 'raise': ValueError, 'interrupt': KeyboardInterrupt, 'empty': TypeError, 'value': TypeError,
          'false': TypeError}
EXPECT2 = {'ok': None, 'raise': KeyError, 'twice': TypeError}


def history(H, base, kw, nargs, ops):
    inp = dict(cls=base.__name__, history=ops)
    H.case(inp)
    plan, log = [], []
    o = make(base, plan, log, **kw)
    state = False
    args = ('a', 'b')[:nargs]
    for op, how in ops:
        plan[:] = [how]
        del log[:]
        record(o)
        before, rec, d = state, recorded(o), dict(vars(o))
        err = None
        try:
            getattr(o, op)(*(args if op == 'start' else ()))
        except BaseException as e:
            err = e
        got = o.is_running()
        if (op == 'start') == before:
            H.expect(type(err) is RuntimeError, '%s in the wrong state: %r' % (op, err), inp)
            H.expect(got == before, '%s in the wrong state changed the state' % op, inp)
            H.equal(log, [], '%s in the wrong state touched run()' % op, inp)
            H.equal(recorded(o), rec, '%s in the wrong state changed the statistics' % op, inp)
            H.expect({k: v for k, v in d.items()} == dict(vars(o)), '%s in the wrong state changed the object' % op, inp)
        elif op == 'start':
            state = how == 'ok'
            H.expect(type(err) is (EXPECT[how] or type(None)), 'start with %s: %r' % (how, err), inp)
            H.expect(got == state, 'after start with %s: running=%r' % (how, got), inp)
            H.equal(log, [('begin', how, args, {})], 'run() at start', inp)
        else:
            state = False
            H.expect(type(err) is (EXPECT2[how] or type(None)), 'stop with %s: %r' % (how, err), inp)
            H.expect(got is False or not got, 'running after stop', inp)
            H.equal(log, [('end', how)], 'run() at stop', inp)


def kwof(base, kw):
    return {'sampler': Sampler()} if base is SamplingProfiler else kw


def histories(H):
    moves = [('start', h) for h in BEGIN] + [('stop', h) for h in END]
    for base, kw, n in CLASSES:
        for l in range(1, 5 if base is Runnable or H.thorough else 4):
            for ops in itertools.product(moves, repeat=l):
                history(H, base, kwof(base, kw), n, ops)


def random_histories(H):
    moves = [('start', h) for h in BEGIN] + [('stop', h) for h in END] + [('start', 'ok'), ('stop', 'ok')] * 3
    for _ in range(2000 if H.thorough else 200):
        base, kw, n = H.rng.choice(CLASSES)
        history(H, base, kwof(base, kw), n, tuple(H.rng.choice(moves) for _ in range(H.rng.randint(5, 12))))


class Leave(Exception):
    pass


def with_blocks(H):
    for base, kw, n in CLASSES:
        if n and base is not Runnable:
            continue
        for begin, end, how in itertools.product(BEGIN, END, ('normal', 'raise', 'return', 'exit', 'break')):
            inp = dict(cls=base.__name__, begin=begin, end=end, block=how)
            H.case(inp)
            plan, log = [begin, end], []
            o = make(base, plan, log, **kwof(base, kw))
            inside = []

            def block():
                for _ in range(1):
                    with o as x:
                        inside.append((x is o, o.is_running()))
                        if how == 'raise':
                            raise Leave
                        if how == 'exit':
                            raise SystemExit(1)
                        if how == 'return':
                            return 1
                        if how == 'break':
                            break
                return 2
            err = r = None
            try:
                r = block()
            except BaseException as e:
                err = e
            H.expect(not o.is_running(), 'running after the block', inp)
            if begin != 'ok':
                H.expect(type(err) is EXPECT[begin], 'failed start: %r' % (err,), inp)
                H.equal(inside, [], 'the block was entered', inp)
                continue
            H.equal(inside, [(True, True)], 'inside the block', inp)
            H.equal([x[0] for x in log], ['begin', 'end'], 'run()', inp)
            if end == 'ok':
                H.expect(type(err) is {'raise': Leave, 'exit': SystemExit}.get(how, type(None)), 'ended with %r' % (err,), inp)
            else:
                H.expect(type(err) is EXPECT2[end], 'ended with %r' % (err,), inp)


class Dummy(object):
    def sample(self, frame):
        pass


def shipped(H):
    """the shipped implementations"""
    def tracing():
        return TracingProfiler(), ()

    def sampling_t():
        return SamplingProfiler(sampler=TracingSampler()), ()

    def sampling_i():
        return SamplingProfiler(sampler=ItimerSampler(10)), ()
    d = Dummy()
    builders = {'tracing': tracing, 'sampling tracing': sampling_t, 'sampling itimer': sampling_i,
                'Timer': lambda: (Timer(), (d,)), 'ThreadTimer': lambda: (ThreadTimer(), (d,)),
                'ItimerSampler': lambda: (ItimerSampler(10), (d,)), 'TracingSampler': lambda: (TracingSampler(), (d,))}
    old = signal.getsignal(signal.SIGPROF)
    signal.signal(signal.SIGPROF, signal.SIG_IGN)
    try:
        for name, b in sorted(builders.items()):
            for ops in itertools.product(['start', 'stop'], repeat=4):
                inp = dict(cls=name, history=ops)
                H.case(inp)
                o, args = b()
                state = False
                for op in ops:
                    err = None
                    try:
                        getattr(o, op)(*(args if op == 'start' else ()))
                    except BaseException as e:
                        err = e
                    wrong = (op == 'start') == state
                    if not wrong:
                        state = not state
                    got = o.is_running()
                    if not (type(err) is (RuntimeError if wrong else type(None)) and got == state):
                        if o.is_running():
                            o.stop()
                        sys.setprofile(None)
                        threading.setprofile(None)
                        H.fail('%s: %r, running=%r, expected %r' % (op, err, got, state), inp)
                        break
                if o.is_running():
                    o.stop()
    finally:
        sys.setprofile(None)
        threading.setprofile(None)
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


SECTIONS = [histories, random_histories, with_blocks, shipped]
