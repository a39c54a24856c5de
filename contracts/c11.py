"""C11: the start/stop life cycle is a strict two-state machine.

Abstract state: idle | running (= is_running()).  For every transition, from both states, with a run() which may do
anything at either of its halves:
    start(): requires nothing; idle -> running if run() reached its only, empty yield; otherwise an error and still idle
    start() when running, stop() when idle: RuntimeError, nothing changes
    stop(): running -> idle, whatever the second half of run() does; TypeError if it yields again
    with: idle after any way out of the block
"""
from .common import *
from .process import Process

PROG = '''
def main(Base, begin, end):
    class R(Base):
        def run(self, *args, **kwargs):
            how = begin(self, args, kwargs)
            if how == 'raise':
                raise ValueError('begin')
            if how == 'empty':
                return
            if how == 'value':
                yield 42
            elif how == 'false':
                yield 0
            else:
                yield
            how = end(self)
            if how == 'raise':
                raise KeyError('end')
            if how == 'twice':
                yield
    return R
'''
BEGIN = ['ok', 'raise', 'empty', 'value', 'false']
END = ['ok', 'raise', 'twice']
OPS = ['start', 'stop']


class Life(object):

    def __init__(self, path, qual, extra, args):
        self.path = path
        self.log = []
        self.args = args
        R = call(path, program(path, PROG), cls(path, qual), Builtin('begin', self.begin), Builtin('end', self.end))
        self.o = path.interp.call(R, [], extra(path))
        self.how = None

    def begin(self, I, a, k):
        self.log.append('begin')
        self.path.check('run() belongs to the started object', a[0] is self.o)
        self.path.check('run() gets the arguments of start()', len(a[1]) == len(self.args) and all(
            x is y for x, y in zip(a[1], self.args)))
        self.how = BEGIN[self.path.choose(len(BEGIN), 'first half of run()')]
        return self.how

    def end(self, I, a, k):
        self.log.append('end')
        self.how = END[self.path.choose(len(END), 'second half of run()')]
        return self.how

    def running(self):
        r = call(self.path, get(self.path, self.o, 'is_running'))
        return self.path.decide(zb(lib.term(self.path.interp, r))) if not isinstance(r, bool) else r

    def do(self, op):
        path, o = self.path, self.o
        before = self.running()
        n = len(self.log)
        snap = Snapshot(path, o)
        self.how = None
        r, e = attempt(path, lambda: call(path, get(path, o, op), *(self.args if op == 'start' else ())))
        after = self.running()
        new = self.log[n:]
        if (op == 'start') == before:
            path.check('%s in the wrong state raises RuntimeError' % op, is_exc(path, e, 'RuntimeError'))
            path.check('%s in the wrong state changes nothing' % op, snap.unchanged())
            path.check('%s in the wrong state keeps the state' % op, after == before)
            path.check('%s in the wrong state does not touch run()' % op, new == [])
        elif op == 'start':
            path.check('start runs the first half of run() once', new == ['begin'])
            if new != ['begin']:
                raise PathEnd()
            path.check('a start is successful iff run() yields without a value', (e is None) == (self.how == 'ok'))
            path.check('running iff the start was successful', after == (self.how == 'ok'))
            if self.how == 'raise':
                path.check('the error of run() is passed on', is_exc(path, e, 'ValueError'))
            elif self.how != 'ok':
                path.check('a run() without exactly one empty yield is a TypeError', is_exc(path, e, 'TypeError'))
            path.cover('start ' + self.how)
        else:
            path.check('stop runs the second half of run() once', new == ['end'])
            if new != ['end']:
                raise PathEnd()
            path.check('idle after stop', not after)
            if self.how == 'ok':
                path.check('stop does not fail', e is None)
            elif self.how == 'raise':
                path.check('the error of run() is passed on', is_exc(path, e, 'KeyError'))
            else:
                path.check('a second yield is a TypeError', is_exc(path, e, 'TypeError'))
            path.cover('stop ' + self.how)

    def record(self):
        s = self.o.d.get('stats')
        if s is None:
            return
        path = self.path
        call(path, get(path, s, 'add_child'), ref(path, CODE, 'code'), ref(path, CODE, 'child'))
        path.interp.setattr(s, 'own_hits', SV('int', path.fresh('own_hits', INT)))


def histories(qual, extra, args, n):
    def run(path):
        Process(path, False)
        L = Life(path, qual, extra, [path.interp.exc('KeyError').value for _ in range(args)])
        path.check('idle at first', not L.running())
        for i in range(n):
            L.record()
            L.do(OPS[path.choose(2, 'operation %d' % i)])
    return run


WITH = '''
def main(o, body):
    def block():
        with o as x:
            if body(x) == 'return':
                return 1
        return 2
    return block()
'''


def with_block(qual, extra):
    def run(path):
        Process(path, False)
        L = Life(path, qual, extra, [])
        how = []

        def body(I, a, k):
            path.check('the block gets the object itself', a[0] is L.o)
            path.check('running inside the block', L.running())
            how.append(['normal', 'raise', 'return'][path.choose(3, 'the block')])
            if how[0] == 'raise':
                raise path.interp.exc('IndexError')
            return how[0]
        r, e = attempt(path, lambda: call(path, program(path, WITH), L.o, Builtin('body', body)))
        path.check('idle after the block', not L.running())
        if how:
            path.check('stopped once', L.log == ['begin', 'end'])
            if L.log != ['begin', 'end']:
                raise PathEnd()
            path.cover('block ' + how[0])
            if L.how == 'ok':
                path.check('the block ends as it would without profiling',
                           is_exc(path, e, 'IndexError') if how[0] == 'raise' else
                           e is None and r == (1 if how[0] == 'return' else 2))
            else:
                path.check('the error of stop() is passed on', e is not None)
        else:
            path.check('a failed start is reported', e is not None)
            path.check('a failed start is not stopped', L.log == ['begin'])
    return run


_none = lambda path: {}
_timer = lambda path: {'timer': new(path, 'profiling.tracing.timers:Timer')}
_sampler = lambda path: {'sampler': new(path, 'profiling.sampling.samplers:Sampler')}
for _q, _x, _a, _n in (('profiling.utils:Runnable', _none, 2, 4),
                       ('profiling.profiler:Profiler', _none, 0, 3),
                       ('profiling.tracing.timers:Timer', _none, 1, 3),
                       ('profiling.tracing.timers:ContextualTimer', _none, 1, 3),
                       ('profiling.sampling.samplers:Sampler', _none, 1, 3),
                       ('profiling.tracing:TracingProfiler', _timer, 0, 3),
                       ('profiling.sampling:SamplingProfiler', _sampler, 0, 3)):
    contract('C11', '%s: every history of %d operations' % (_q.split(':')[1], _n), [_q.split(':')[0]])(
        histories(_q, _x, _a, _n))
    contract('C11', '%s as a context manager' % _q.split(':')[1], [_q.split(':')[0]])(with_block(_q, _x))


# the shipped run() implementations

def shipped(build):
    def run(path):
        P = Process(path)
        o, args = build(path)
        running = lambda: call(path, get(path, o, 'is_running'))
        for i in range(2):
            r, e = P.start(lambda: call(path, get(path, o, 'start'), *args))
            path.check('a start fails only if something fails', (e is None) == (P.failed is None))
            path.check('running iff started', running() is (e is None))
            snap = Snapshot(path, o, path.ghost)
            op = 'stop' if e is not None else 'start'
            r, e2 = attempt(path, lambda: call(path, get(path, o, op), *(args if op == 'start' else ())))
            path.check('%s in the wrong state raises RuntimeError' % op, is_exc(path, e2, 'RuntimeError'))
            path.check('%s in the wrong state changes nothing' % op, snap.unchanged())
            path.check('%s in the wrong state keeps the state' % op, running() is (e is None))
            if e is None:
                r, e = attempt(path, lambda: call(path, get(path, o, 'stop')))
                path.check('stop does not fail', e is None)
                path.check('idle after stop', running() is False)
                path.cover('stopped')
            else:
                path.cover('failed start') if build.__name__ != 'nofail' else None
    return run


def _p(path):
    return path.interp.exc('KeyError').value     # any object serves as the profiler


def b_timer(q):
    def nofail(path):
        return new(path, q), [_p(path)]
    return nofail


def b_greenlet(path):
    return new(path, 'profiling.tracing.timers:GreenletTimer'), [_p(path)]


def b_sampler(q):
    return lambda path: (new(path, q), [_p(path)])


def b_tracing(path):
    t = new(path, 'profiling.tracing.timers:Timer')
    return new(path, 'profiling.tracing:TracingProfiler', timer=t), []


def b_sampling(path):
    s = new(path, 'profiling.sampling.samplers:ItimerSampler')
    return new(path, 'profiling.sampling:SamplingProfiler', sampler=s), []


for _n, _m, _b in (('Timer', 'profiling.tracing.timers', b_timer('profiling.tracing.timers:Timer')),
                   ('ThreadTimer', 'profiling.tracing.timers', b_timer('profiling.tracing.timers:ThreadTimer')),
                   ('GreenletTimer', 'profiling.tracing.timers', b_greenlet),
                   ('ItimerSampler', 'profiling.sampling.samplers', b_sampler('profiling.sampling.samplers:ItimerSampler')),
                   ('TracingSampler', 'profiling.sampling.samplers', b_sampler('profiling.sampling.samplers:TracingSampler')),
                   ('TracingProfiler', 'profiling.tracing', b_tracing),
                   ('SamplingProfiler', 'profiling.sampling', b_sampling)):
    contract('C11', '%s as shipped' % _n, [_m])(shipped(_b))

ASSUMPTIONS = ['run() implementations are arbitrary up to what their two halves do: end normally, raise, or not yield '
               'exactly once; they do not start or stop the object themselves',
               'histories of 3 or 4 operations reach every transition from both states; longer ones repeat them, as '
               'the life cycle keeps no other state than whether it is running']
