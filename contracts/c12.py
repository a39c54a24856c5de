"""C12: stopping gives back every hook, handler and timer.

Contract of start()/stop() of the shipped profilers over the ghost process state (contracts/process.py):
    start(): normal     ensures  exactly the requested hook/handler/interval/timer is installed, and it works
             exceptional ensures  the process state is the one before
    stop():  (either)   ensures  the process state is the one before (SIG_DFL becomes SIG_IGN)
Each installing call may fail once, the timer or sampler may fail to start or stop.
"""
from .common import *
from .process import Process, same_hook

TIMER = '''
def main(Base, begin, end):
    class T(Base):
        def run(self, profiler):
            begin(self, profiler)
            yield
            end(self, profiler)
    return T
'''
SAMPLED = '''
def main(sample):
    class P(object):
        def sample(self, frame):
            sample(self, frame)
    return P
'''


def hook_state(P):
    return {k: P.get(k) for k in ('sys', 'threading', 'greenlet', 'handler', 'itimer')}


def check_same(path, P, before, what, handler=None):
    for k in ('sys', 'threading', 'greenlet'):
        path.check('%s: %s profile hook is as before' % (what, k), same_hook(path, P.get(k), before[k]))
    want = before['handler'] if handler is None else handler
    path.check('%s: profiling signal handler is as before' % what, same_hook(path, P.get('handler'), want))
    path.check('%s: interval timer is as before' % what, eq(path, P.get('itimer'), before['itimer']))


def previous_handler(path, P):
    """-> the handler expected after profiling"""
    k = path.choose(3, 'previous handler')
    itimer = (SV('real', path.fresh('prev_value', REAL)), SV('real', path.fresh('prev_interval', REAL)))
    if k == 0:
        P.previous(Ext('signal.SIG_DFL'), itimer)
        return Ext('signal.SIG_IGN')
    h = Ext('signal.SIG_IGN') if k == 1 else Builtin('previous handler', lambda I, a, kw: None)
    P.previous(h, itimer)
    return h


# --- tracing -----------------------------------------------------------------

def run_foreign_hook(path):
    """while another hook is installed a tracing profiler does not start"""
    P = Process(path)
    t = new(path, 'profiling.tracing.timers:Timer')
    p = new(path, 'profiling.tracing:TracingProfiler', timer=t)
    other = Builtin('other hook', lambda I, a, k: None)
    P.set('sys', other)
    P.set('threading', other if path.choose(2, 'threading hook') else None)
    before = hook_state(P)
    r, e = P.start(lambda: call(path, get(path, p, 'start')))
    path.check('refuses to start', is_exc(path, e, 'RuntimeError'))
    check_same(path, P, before, 'refused start')
    path.check('idle after a refused start', call(path, get(path, p, 'is_running')) is False)
    path.check('the timer was not started', call(path, get(path, t, 'is_running')) is False)
    P.set('sys', None)
    P.faults = False
    r, e = attempt(path, lambda: call(path, get(path, p, 'start')))
    path.check('starts when the other hook is gone', e is None)
    path.cover('refused')


contract('C12', 'TracingProfiler refuses a foreign hook', ['profiling.tracing'])(run_foreign_hook)


def check_tracing_hook(path, P, p, n):
    """Both installed hooks record a call event into the statistics of this profiler."""
    for k in ('sys', 'threading'):
        h = P.get(k)
        path.check('a %s profile hook is installed' % k, h is not None)
        if h is None:
            return
        code = ref(path, CODE, 'code %s %d' % (k, n))
        frame = ref(path, FRAME, 'frame')
        path.assume(FRAME.attr_u(frame.t, 'f_code') == code.t)
        call(path, h, frame, 'call', None)
        s = get(path, p, 'stats')
        c, e = attempt(path, lambda: call(path, get(path, s, 'get_child'), code))
        path.check('the %s hook is the one of this profiler' % k, e is None and zb(eq(path, get(path, c, 'own_hits'), 1)))
        call(path, get(path, s, 'discard_child'), code)


def tracing(kind):
    def run(path):
        P = Process(path)
        log = []
        path.interp.models['profiling.profiler:Profiler.frame_stack'] = lambda p, a, k: PyList(())
        if kind == 'greenlet':
            t = new(path, 'profiling.tracing.timers:GreenletTimer')
            model(path, 'greenlet.getcurrent', lambda p, a, k: ref(p, FRAME, 'greenlet'))
        elif kind == 'custom':
            def begin(I, a, k):
                path.check('the timer is started for this profiler', a[1] is p)
                P.may_fail('timer.start')
                log.append('begin')

            def end(I, a, k):
                log.append('end')
                if path.choose(2, 'timer.stop fails'):
                    raise path.interp.exc('OSError', 'timer.stop fails')
            T = call(path, program(path, TIMER), cls(path, 'profiling.tracing.timers:Timer'),
                     Builtin('begin', begin), Builtin('end', end))
            t = path.interp.call(T, [], {})
        else:
            t = new(path, 'profiling.tracing.timers:' + kind)
            model(path, 'time.clock_gettime', lambda p, a, k: SV('real', p.fresh('thread clock', REAL)))
        p = new(path, 'profiling.tracing:TracingProfiler', timer=t)
        handler = previous_handler(path, P)
        for i in range(2):
            before = hook_state(P)
            r, e = P.start(lambda: call(path, get(path, p, 'start')))
            path.check('a start fails only if something fails', (e is None) == (P.failed is None))
            timer_running = lambda: call(path, get(path, t, 'is_running'))
            if e is not None:
                check_same(path, P, before, 'failed start')
                path.check('failed start: the timer is stopped', timer_running() is False)
                path.cover('failed start')
                continue
            path.check('the timer runs', timer_running() is True)
            for k in ('handler', 'itimer'):
                path.check('%s untouched while tracing' % k, same_hook(path, P.get(k), before[k]) if k == 'handler'
                           else eq(path, P.get(k), before[k]))
            if kind == 'greenlet':
                path.check('the timer watches the greenlet switches', P.get('greenlet') is not None)
            check_tracing_hook(path, P, p, i)
            r, e = attempt(path, lambda: call(path, get(path, p, 'stop')))
            check_same(path, P, before, 'stop')
            path.check('stop: the timer is stopped', timer_running() is False)
            path.check('a custom timer is stopped once', kind != 'custom' or log[-2:] == ['begin', 'end'])
            path.check('stop fails only if the timer does', e is None or kind == 'custom')
            path.cover('stopped')
    return run


for _k in ('Timer', 'ThreadTimer', 'greenlet', 'custom'):
    contract('C12', 'TracingProfiler with %s timer' % _k, ['profiling.tracing'])(tracing(_k))


# --- sampling ----------------------------------------------------------------

def check_itimer(path, P, before, interval, ok):
    for k in ('sys', 'threading', 'greenlet'):
        path.check('%s hook untouched while sampling by the timer' % k, same_hook(path, P.get(k), before[k]))
    path.check('the timer runs at the interval of the sampler', eq(path, P.get('itimer'), (interval, interval)))
    h = P.get('handler')
    n = ok()
    path.check('a signal handler is installed', not isinstance(h, Ext))
    if isinstance(h, Ext):
        return
    frame = ref(path, FRAME, 'frame')
    call(path, h, 27, frame)
    path.check('a signal takes one sample', ok() == n + 1)


def check_tracing_sampler(path, P, before, interval, ok):
    path.check('signal handler untouched', same_hook(path, P.get('handler'), before['handler']))
    path.check('interval timer untouched', eq(path, P.get('itimer'), before['itimer']))
    for k in ('sys', 'threading'):
        h = P.get(k)
        path.check('a %s profile hook is installed' % k, h is not None)
        if h is None:
            return
        n = ok()
        now = [path.fresh('thread clock', REAL)]
        path.assume(now[0] >= interval)
        model(path, 'time.clock_gettime', lambda p, a, kw: SV('real', now[0]))
        ident = path.fresh('thread', INT)
        model(path, '_thread.get_ident', lambda p, a, kw: SV('int', ident))
        s = path.sampler.d.get('sampled_times')
        if isinstance(s, PyDict):
            path.write(s, 'c', DictC())
        call(path, h, ref(path, FRAME, 'frame'), 'call', None)
        path.check('the %s hook takes one sample' % k, ok() == n + 1)


def sampler_alone(qual, check):
    """the samplers, for any object with a method sample()"""
    def run(path):
        P = Process(path)
        samples = []
        p = path.interp.call(call(path, program(path, SAMPLED), Builtin('sample', lambda I, a, k: samples.append(a[1]))), [], {})
        interval = SV('real', path.fresh('interval', REAL))
        path.assume(interval.t > 0)
        s = path.sampler = new(path, qual, interval)
        handler = previous_handler(path, P)
        for i in range(2):
            before = hook_state(P)
            r, e = P.start(lambda: call(path, get(path, s, 'start'), p))
            path.check('a start fails only if something fails', (e is None) == (P.failed is None))
            if e is None:
                check(path, P, before, interval.t if check is check_tracing_sampler else interval, lambda: len(samples))
                r, e2 = attempt(path, lambda: call(path, get(path, s, 'stop')))
                path.check('stop does not fail', e2 is None)
            what = 'failed start' if e is not None else 'stop'
            touched = e is None and check is check_itimer or not same_hook_is(path, P.get('handler'), before['handler'])
            check_same(path, P, before, what, handler if touched else None)
            path.check('%s: the sampler is stopped' % what, call(path, get(path, s, 'is_running')) is False)
            path.cover(what)
    return run


def same_hook_is(path, a, b):
    return path.must(same_hook(path, a, b))


def sampling_profiler(qual, check):
    def run(path):
        P = Process(path)
        path.interp.models['profiling.profiler:Profiler.frame_stack'] = lambda p, a, k: PyList(())
        interval = SV('real', path.fresh('interval', REAL))
        path.assume(interval.t > 0)
        s = path.sampler = new(path, qual, interval)
        p = new(path, 'profiling.sampling:SamplingProfiler', sampler=s)
        handler = previous_handler(path, P)

        def hits():
            n = 0
            for part in seq_of(path, get(path, get(path, p, 'stats'), 'children')):
                n += get(path, part.v, 'own_hits')
            return n
        for i in range(2):
            before = hook_state(P)
            r, e = P.start(lambda: call(path, get(path, p, 'start')))
            path.check('a start fails only if something fails', (e is None) == (P.failed is None))
            if e is None:
                path.check('the sampler runs', call(path, get(path, s, 'is_running')) is True)
                check(path, P, before, interval.t if check is check_tracing_sampler else interval, hits)
                r, e2 = attempt(path, lambda: call(path, get(path, p, 'stop')))
                path.check('stop does not fail', e2 is None)
            what = 'failed start' if e is not None else 'stop'
            touched = e is None and check is check_itimer or not same_hook_is(path, P.get('handler'), before['handler'])
            check_same(path, P, before, what, handler if touched else None)
            path.check('%s: the sampler is stopped' % what, call(path, get(path, s, 'is_running')) is False)
            path.cover(what)
    return run


for _q, _c in (('ItimerSampler', check_itimer), ('TracingSampler', check_tracing_sampler)):
    contract('C12', _q, ['profiling.sampling.samplers'])(sampler_alone('profiling.sampling.samplers:' + _q, _c))
    contract('C12', 'SamplingProfiler with ' + _q, ['profiling.sampling'])(
        sampling_profiler('profiling.sampling.samplers:' + _q, _c))


ASSUMPTIONS = ['an external call which fails has no effect (each installing call may fail, at most one per start)',
               'calls which restore the previous state do not fail',
               'the previous signal handler is SIG_DFL, SIG_IGN or a Python function (a handler installed from C is '
               'reported as None by signal.signal and cannot be restored from Python)',
               'signal.signal, signal.setitimer and greenlet.settrace return the previous value; '
               'threading.setprofile and sys.setprofile install what they are given',
               'a weak reference proxy behaves like the object while it is alive']
