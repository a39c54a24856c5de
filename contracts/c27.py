"""C27: results measure the span since start and are never negative.

Contracts:
    start(): ensures  stats is empty with its initial values,  the clocks of this start are remembered
    result(): ensures  result == (the live stats, max(0, cpu' - cpu0), max(0, wall' - wall0)), nothing recorded changes
              (zero times when never started)
where cpu0/wall0 are the clock readings at the start and cpu'/wall' those at the result.  Clock readings are arbitrary
(fresh reals per reading), so also clocks which go backwards.
"""
import itertools
from .common import *

CHILD = Kind('stats', {'own_hits': 'int', 'deep_time': 'real'})


class Clocks(object):
    def __init__(self, path):
        self.path = path
        self.n = {}
        for name in ('time.clock', 'time.time'):
            model(path, name, self.reader(name))

    def reader(self, name):
        def read(path, args, kwargs):
            v = SV('real', path.fresh(name, REAL))
            self.n.setdefault(name, []).append(v)
            path.hint('%s reading %d' % (name, len(self.n[name])), v)
            return v
        return read

    def mark(self):
        self.n = {}

    def only(self, name):
        l = self.n.get(name, [])
        self.path.check('%s is read once' % name, len(l) == 1)
        return l[0]


def record(path, p):
    """Put arbitrary recorded statistics into the profiler, over the public interface and behind it."""
    s = get(path, p, 'stats')
    call(path, get(path, s, 'add_child'), ref(path, CODE, 'code'), ref(path, CHILD, 'child'))
    d = dict_of(s, '_children')
    if d is not None:
        path.write(d, 'c', DictC(path.new_map(('ref', CODE), ('ref', CHILD), 'recorded')))
    path.interp.setattr(s, 'own_hits', SV('int', path.fresh('own_hits', INT)))
    path.interp.setattr(s, 'deep_time', SV('real', path.fresh('deep_time', REAL)))
    return s


def check_empty(path, s, what):
    I = path.interp
    path.check('%s: no children' % what, eq(path, I.call(get(path, s, '__len__'), [], {}), 0))
    path.check('%s: iterates nothing' % what, path.seq_eq(seq_of(path, I.call(get(path, s, '__iter__'), [], {})), ()))
    path.check('%s: no hits' % what, eq(path, get(path, s, 'own_hits'), 0))
    path.check('%s: no time' % what, eq(path, get(path, s, 'deep_time'), 0.0))


def span(path, a, b):
    d = num(path, b) - num(path, a)
    return SV('real', z3.If(d > 0, d, z3.RealVal(0)))


def check_result(path, p, ck, started, what):
    """started: (cpu, wall) readings at the start, or None"""
    s = get(path, p, 'stats')
    snap = Snapshot(path, s, p, skip=('_running',))
    ck.mark()
    r, e = attempt(path, lambda: call(path, get(path, p, 'result')))
    path.check('%s: result() does not fail' % what, e is None)
    if e is not None:
        return
    if not (isinstance(r, tuple) and len(r) == 3):
        raise Unsupported('result %r' % (r,))
    path.check('%s: result carries the live statistics' % what, r[0] is s)
    for i, name in ((1, 'time.clock'), (2, 'time.time')):
        path.check('%s: %s time is never negative' % (what, ('', 'CPU', 'wall')[i]), num(path, r[i]) >= 0)
        if started is None:
            path.check('%s: zero times' % what, eq(path, r[i], 0.0))
        else:
            now = ck.only(name)
            path.check('%s: %s time is the span since the start' % (what, ('', 'CPU', 'wall')[i]),
                       eq(path, r[i], span(path, started[i - 1], now)))
    path.check('%s: taking a result changes nothing' % what, snap.unchanged())
    path.cover(what)


def lifecycle(qual, extra, adjust=None):
    def run(path):
        ck = Clocks(path)
        P = call(path, program(path, PROG_PROFILER), cls(path, qual))
        p = path.interp.call(P, [], extra(path))
        # any two results in a row of a life; the others are not taken (taking a result changes nothing)
        first, stage = path.choose(6, 'the results taken'), itertools.count()

        def check(started, what):
            if next(stage) in (first, first + 1):
                check_result(path, p, ck, started, what)
        check(None, 'before any start')
        for i in (0, 1):
            s = record(path, p)
            ck.mark()
            r, e = attempt(path, lambda: call(path, get(path, p, 'start')))
            path.check('start() does not fail', e is None)
            if e is not None:
                return
            check_empty(path, get(path, p, 'stats'), 'start %d clears' % i)
            path.check('start %d keeps the statistics object' % i, get(path, p, 'stats') is s)
            began = ck.only('time.clock'), ck.only('time.time')
            record(path, p)
            check(began, 'while running %d' % i)
            record(path, p)
            check(began, 'later while running %d' % i)
            r, e = attempt(path, lambda: call(path, get(path, p, 'stop')))
            path.check('stop() does not fail', e is None)
            check(began, 'after stop %d' % i)
    return run


contract('C27', 'Profiler start/result', ['profiling.profiler'])(lifecycle('profiling.profiler:Profiler', lambda path: {}))
contract('C27', 'SamplingProfiler start/result', ['profiling.sampling'])(lifecycle(
    'profiling.sampling:SamplingProfiler', lambda path: {'sampler': new(path, 'profiling.sampling.samplers:Sampler')}))
contract('C27', 'TracingProfiler start/result', ['profiling.tracing'])(lifecycle(
    'profiling.tracing:TracingProfiler', lambda path: {'timer': new(path, 'profiling.tracing.timers:Timer')}))


@contract('C27', 'result at any recorded start', ['profiling.profiler'])
def run_any_start(path):
    """two results in a row agree with their own clock readings, from any running state"""
    ck = Clocks(path)
    P = call(path, program(path, PROG_PROFILER), cls(path, 'profiling.profiler:Profiler'))
    p = path.interp.call(P, [], {})
    call(path, get(path, p, 'start'))
    began = ck.only('time.clock'), ck.only('time.time')
    check_result(path, p, ck, began, 'first result')
    check_result(path, p, ck, began, 'second result')


ASSUMPTIONS = ['time.clock and time.time return arbitrary real numbers (each reading a fresh one)',
               'the overhead of a tracing profiler is zero here (its part of the CPU time is property C03)',
               'run() of the profiler under test only yields (what the runs of the shipped profilers do is C12)']
