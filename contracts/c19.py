"""C19: the background profiler toggles the real one and waits for it.

    start() (stop()) on an idle (running) wrapped profiler: sends signum to this process exactly once; returns when the
        handler has started (stopped) the wrapped profiler - whenever the signal is delivered, from then on - and also
        when that raised; the wrong state is a RuntimeError and sends nothing
    handler: toggles the wrapped profiler and wakes the waiting thread up only after that, always
    prepare(): registers the handler for signum only and returns the previous one
    attributes of a wrapper: those of the wrapped profiler, now
"""
from .common import *
from .c27 import Clocks

PROG = '''
def main(Base, begin, end, ops):
    class Inner(Base):
        def run(self, *args, **kwargs):
            begin(self)
            yield
            end(self)

    class Event(object):
        def __init__(self):
            self.flag = False
        def clear(self):
            ops('clear', self)
            self.flag = False
        def set(self):
            ops('set', self)
            self.flag = True
        def is_set(self):
            ops('is_set', self)
            return self.flag
        def wait(self, timeout=None):
            return ops('wait', self, timeout)
    return Inner, Event
'''
PID = 4711


class Signals(object):
    """the process: signal table, pending signals, events; `main`: the caller runs in the main thread"""

    def __init__(self, path, main, signum=None):
        self.path = path
        self.main = main
        self.kills = []
        self.pending = 0
        self.runs = 0          # handler runs completed
        self.inside = False    # in the handler
        self.calls = []        # of the wrapped profiler
        self.tables = []
        self.raised = False    # the wrapped profiler failed
        self.done = True       # the wrapped profiler did what the signal asks for
        Clocks(path)
        self.previous = Ext('the previous handler')
        self.table = {}
        path.interp.loading = False
        Inner, self.Event = call(path, program(path, PROG), cls(path, 'profiling.profiler:Profiler'),
                                 Builtin('begin', self.begin), Builtin('end', self.end), Builtin('ops', self.ops))
        model(path, 'threading.Event', lambda p, a, k: p.interp.call(self.Event, [], {}))
        model(path, 'os.kill', self.kill)
        model(path, 'os.getpid', lambda p, a, k: PID)
        model(path, 'signal.SIGUSR2@', lambda p: 12)
        model(path, 'signal.SIGUSR1@', lambda p: 10)
        model(path, 'signal.signal', self.signal)
        model(path, 'signal.getsignal', lambda p, a, k: self.handler)
        self.handler = self.previous
        self.inner = path.interp.call(Inner, [], {})
        self.signum = 12 if signum is None else signum
        args = [self.inner] + ([] if signum is None else [signum])
        self.bg = new(path, 'profiling.remote.background:BackgroundProfiler', *args)
        r = call(path, get(path, self.bg, 'prepare'))
        path.check('prepare() returns the previous handler', r is self.previous)
        path.check('prepare() registers one handler', len(self.tables) == 1)

    def signal(self, path, a, k):
        path.check('the agreed signal is registered', eq(path, a[0], self.signum))
        old, self.handler = self.handler, a[1]
        self.tables.append(a[1])
        return old

    def kill(self, path, a, k):
        path.check('the signal goes to this process', eq(path, a[0], PID))
        path.check('it is the agreed signal', eq(path, a[1], self.signum))
        self.kills.append(a)
        self.pending += 1
        if self.main or path.choose(2, 'the handler runs before kill() returns'):
            self.deliver()

    def deliver(self):
        """the main thread runs the handler"""
        path = self.path
        while self.pending and not self.inside:
            self.pending -= 1
            self.inside, self.done = True, False
            try:
                _, e = attempt(path, lambda: call(path, self.handler, self.signum, None))
            finally:
                self.inside = False
            self.runs += 1
            path.check('the handler fails exactly if the wrapped profiler does', (e is not None) == self.raised)
            if e is not None and self.main:
                raise PyExc(e)

    def begin(self, I, a, k):
        self.act('start')

    def end(self, I, a, k):
        self.act('stop')

    def act(self, what):
        self.calls.append(what)
        self.raised = bool(self.path.choose(2, '%s of the wrapped profiler fails' % what))
        self.done = True
        if self.raised:
            raise self.path.interp.exc('ValueError', what)

    def ops(self, I, a, k):
        path = self.path
        op, ev = a[0], a[1]
        if op == 'set' and self.inside:
            path.check('nobody is woken up before the wrapped profiler is done', self.done)
        elif op == 'wait':
            if a[2] is not None and path.choose(2, 'the wait times out'):
                return ev.d['flag']
            if not ev.d['flag']:
                self.deliver()
            path.check('the wait comes to an end', ev.d['flag'])
            if not ev.d['flag']:
                raise PathEnd()
            return True
        elif self.pending and path.choose(2, 'the handler runs before %s' % op):
            self.deliver()

    def running(self):
        r = call(self.path, get(self.path, self.inner, 'is_running'))
        path = self.path
        path.check('the wrapper is running exactly if the wrapped one is', call(path, get(path, self.bg, 'is_running')) == r)
        return r

    def do(self, op):
        path = self.path
        before = self.running()
        kills, runs, calls = len(self.kills), self.runs, len(self.calls)
        self.raised = False
        if op in ('start', 'stop'):
            _, e = attempt(path, lambda: call(path, get(path, self.bg, op)))
            wrong = (op == 'start') == before
            path.check('%s: %d signals' % (op, not wrong), len(self.kills) - kills == (not wrong))
            path.check('%s: handled when it returns' % op, self.pending == 0 and self.runs - runs == (not wrong))
            path.check('%s: the wrapped profiler is asked once' % op, self.calls[calls:] == ([] if wrong else [op]))
            if wrong:
                path.check('%s in the wrong state is a RuntimeError' % op, is_exc(path, e, 'RuntimeError'))
                path.check('and changes nothing', self.running() == before)
                path.cover(op + ' wrong')
            else:
                path.check('%s: fails only in the main thread, with the error of the wrapped profiler' % op,
                           (is_exc(path, e, 'ValueError') if self.raised and self.main else e is None))
                path.check('%s: running afterwards' % op, self.running() == (op == 'start' and not self.raised))
                path.cover(op + (' fails' if self.raised else ''))
        elif op == 'signal':
            self.pending += 1
            attempt(path, self.deliver)
            path.check('a signal from outside toggles', self.running() == (not before and not self.raised))
            path.check('once', self.calls[calls:] == ['stop' if before else 'start'])
            path.cover('signal')
        else:      # the application itself starts or stops the profiler
            attempt(path, lambda: call(path, get(path, self.inner, 'stop' if before else 'start')))
            self.running()


def history(ops, main, n):
    def run(path):
        S = Signals(path, main)
        path.check('idle at first', not S.running())
        for i in range(n):
            op = ops[path.choose(len(ops), 'operation %d' % i)]
            S.do(op)
    return run


for main in (False, True):
    where = 'from the main thread' if main else 'from another thread'
    contract('C19', 'start and stop ' + where, ['profiling.remote.background'], max_paths=40000)(
        history(['start', 'stop'], main, 3))
    contract('C19', 'start and stop %s beside other ones' % where, ['profiling.remote.background'], max_paths=40000)(
        history(['start', 'stop', 'signal', 'toggle'], main, 3))


@contract('C19', 'the chosen signal', ['profiling.remote.background'])
def chosen(path):
    """any signal number"""
    S = Signals(path, False, SV('int', path.fresh('signum', INT)))
    S.do('start')
    S.do('stop')


@contract('C19', 'with block', ['profiling.remote.background'])
def with_block(path):
    """the wrapped profiler runs during the block"""
    S = Signals(path, False)
    how = path.choose(2, 'the block fails')
    seen = []

    def body(I, a, k):
        seen.append(S.running())
        if how:
            raise I.exc('KeyError', 'block')
    _, e = attempt(path, lambda: call(path, program(path, '''
def main(p, body):
    with p:
        body()
'''), S.bg, Builtin('body', body)))
    if S.calls == ['start'] and S.raised:
        return
    path.check('it runs in the block', seen == [True])
    path.check('the error is passed on', is_exc(path, e, 'KeyError') if how else e is None)
    path.check('it was started and stopped once', S.calls == ['start', 'stop'] and len(S.kills) == 2)


INNER = Kind('profiler', {'table_class': ('ref', OPAQUE), 'stats': ('ref', OPAQUE)})


class Any(object):
    """a wrapped profiler of which nothing is known"""
    now = 0


def inner_attr(I, o, name):
    A = I.path.c19
    if name in ('stats', 'table_class'):
        return A.value(I, name)
    if name in ('result', 'is_running', 'dump', 'make_viewer'):
        def fn(I, a, k):
            A.asked.append((name, tuple(a), k))
            return A.value(I, name)
        return Builtin(name, fn)
    return NotImplemented


INNER.handler = inner_attr


class Wrapped(object):
    def __init__(self, path, depth):
        self.path = path
        path.c19 = self
        self.asked = []
        self.values = {}
        self.inner = ref(path, INNER, 'inner')
        Clocks(path)
        model(path, 'threading.Event', lambda p, a, k: ref(p, OPAQUE, 'event'))
        w = self.inner
        for c in depth:
            w = new(path, c, w)
        self.w = w

    def value(self, I, name):
        if name not in self.values:
            self.values[name] = ref(self.path, OPAQUE, name)
        return self.values[name]


def delegation(*depth):
    def run(path):
        W = Wrapped(path, depth)
        for again in range(2):
            W.values = {}        # the wrapped profiler changes
            for name in ('stats', 'table_class'):
                path.check('%s is that of the wrapped profiler' % name, get(path, W.w, name) is W.value(path.interp, name))
            for name in ('result', 'is_running'):
                r = call(path, get(path, W.w, name))
                path.check('%s() is that of the wrapped profiler' % name, r is W.value(path.interp, name))
                path.check('it is asked once', [x[0] for x in W.asked] == [name])
                W.asked = []
    return run


WRAP, BG = 'profiling.profiler:ProfilerWrapper', 'profiling.remote.background:BackgroundProfiler'
contract('C19', 'what a wrapper shows', ['profiling.profiler'])(delegation(WRAP))
contract('C19', 'what a background wrapper shows', ['profiling.remote.background'])(delegation(BG))
contract('C19', 'what nested wrappers show', ['profiling.remote.background'])(delegation(WRAP, BG, WRAP))


def saved(*depth):
    def run(path):
        """dump() and make_viewer() of a wrapper are about the wrapped profiler, under its own class"""
        Clocks(path)
        S = Signals(path, False)
        w = S.inner
        for c in depth:
            w = new(path, c, w)
        I = path.interp
        dumped, shown = [], []
        model(path, 'pickle.dump', lambda p, a, k: dumped.append(a))
        packed = {}

        def dumps(p, a, k):
            b = b'pickle %d' % len(packed)
            packed[b] = a
            return b
        model(path, 'pickle.dumps', dumps)
        wrote = Builtin('wrote', lambda I, a, k: dumped.append(packed.get(a[0]) or path.check('a dump is written', False)))
        F = call(path, program(path, """
def main(wrote):
    class F(object):
        def write(self, data):
            wrote(data)
        def __enter__(self):
            return self
        def __exit__(self, *exc):
            pass
    return F
"""), wrote)
        model(path, 'open', lambda p, a, k: p.interp.call(F, [], {}))
        for name in ('__init__', 'activate'):
            I.models['profiling.viewer:StatisticsViewer.' + name] = lambda p, a, k: None
        for name in ('set_profiler_class', 'set_result'):
            I.models['profiling.viewer:StatisticsViewer.' + name] = lambda p, a, k, name=name: shown.append((name, a[1:]))
        if path.choose(2, 'dump or show'):
            call(path, get(path, w, 'dump'), 'file')
            path.check('one dump', len(dumped) == 1)
            c, r = dumped[0][0]
        else:
            call(path, get(path, w, 'make_viewer'))
            path.check('a class and a result are shown', [x[0] for x in shown] == ['set_profiler_class', 'set_result'])
            c, r = shown[0][1][0], shown[1][1]
        path.check('the class is that of the wrapped profiler', c is S.inner.cls)
        path.check('the statistics too', r[0] is get(path, S.inner, 'stats'))
    return run


contract('C19', 'what a wrapper saves', ['profiling.profiler', 'profiling.remote.background'])(saved(WRAP))
contract('C19', 'what a background wrapper saves', ['profiling.remote.background'])(saved(BG))

ASSUMPTIONS = ['a signal sent with os.kill is delivered to this process once, and its handler runs in the main thread at some '
               'time from then on (modelled: before kill() returns, before any later operation on an event, or during the wait)',
               'threading.Event: wait() returns only when the flag is set (or after its timeout)',
               'between the state check and the handler nobody else starts or stops the wrapped profiler']
