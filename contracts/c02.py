"""C02: tracing counts every call at its own call path.

Contract of TracingProfiler._profile(frame, event, arg), for the node at every position K of the tree:
    'call':          hits'(K) == hits(K) + (1 if K is the call path of the frame else 0), counting there
    any other event: hits'(K) == hits(K), the total stays
    every event:     nothing is removed; what is added lies on the call path, callers as absent nodes without hits
"""
from .common import *
from .process import Process
from .trie import Trie, another, captured, frame_stack_model
from .c04 import check_hit

EVENTS = ['call', 'return', 'c_call', 'c_return', 'c_exception', 'exception', 'line']


class Clock(object):
    """The readings of the CPU clock."""

    def __init__(self, path, monotonic=True):
        self.path = path
        self.readings = []
        self.monotonic = monotonic
        model(path, 'time.clock', self.read)

    def read(self, path, a, k):
        v = SV('real', path.fresh('clock', REAL))
        if self.readings and self.monotonic:
            path.assume(v.t >= self.readings[-1].t)
        self.readings.append(v)
        return v


def profiler(path):
    T = Trie(path)
    path.interp.candidates = T.candidates
    ck = Clock(path)
    t = new(path, 'profiling.tracing.timers:Timer')
    p = new(path, 'profiling.tracing:TracingProfiler', timer=t)
    path.interp.setattr(p, 'stats', T.root())
    d = dict_of(p, '_times_entered')
    if d is None:
        raise Unsupported('entry times are not kept in a dictionary named _times_entered')
    path.write(d, 'c', DictC(path.new_map(('tup', (('ref', CODE), 'int')), 'real', 'entered')))
    path.interp.setattr(p, 'overhead', SV('real', path.fresh('overhead', REAL)))
    return p, T, ck


def profile_event(event, first=None, again=False):
    def run(path):
        p, T, ck = profiler(path)
        frame = ref(path, FRAME, 'frame')
        frame2 = ref(path, FRAME, 'second frame')
        stack, callers = captured(path, frame, frame2)
        frame_stack_model(path, frame, stack)
        arg = ref(path, OPAQUE, 'arg')
        if first is not None:
            Process(path, False)
            call(path, get(path, p, 'start'))
            path.interp.setattr(p, 'stats', T.root())
            ck.__init__(path)
            hook = get(path, p, '_profile')
            call(path, hook, frame, first, arg)
            if again:
                call(path, get(path, p, 'stop'))
                call(path, get(path, p, 'start'))
                path.cover('started again')
            T.mark()
            frame0, frame = frame, frame2
            stack, callers = another(path, frame0, callers[0], frame)
            frame_stack_model(path, frame, stack)
        r, e = attempt(path, lambda: call(path, get(path, p, '_profile'), frame, event, arg))
        path.check('does not fail', e is None)
        path.check('the hook gives no replacement', r is None or event in ('line',))
        if event == 'call':
            check_hit(path, T, callers, frame)
        else:
            here, passed = T.walk(callers)
            path.check('no hit changes', T.g('hits') == T.e('hits'))
            path.check('the total of the hits stays', T.g('total') == T.e('total'))
            path.check('nothing is removed, only callers are added',
                       z3.And(z3.Implies(T.e('present'), T.g('present')),
                              z3.Implies(T.g('present'), z3.Or(T.e('present'), passed))))
            path.check('callers never seen are added as absent ones',
                       z3.Implies(z3.And(z3.Not(T.e('present')), T.g('present')), T.g('void')))
            path.check('nodes stay counting or absent', z3.Implies(T.e('present'), T.g('void') == T.e('void')))
        path.cover('event')
    return run


for _e in EVENTS:
    contract('C02', 'TracingProfiler._profile on %s' % _e, ['profiling.tracing'])(profile_event(_e))
for _f in ('call', 'return'):
    for _e in ('call', 'return'):
        for _a in (False, True):
            contract('C02', '%s after %s%s' % (_e, _f, ' in the run before' if _a else ''), ['profiling.tracing'],
                     max_paths=20000)(profile_event(_e, _f, _a))


ASSUMPTIONS = ['the captured stack is the one of property C01; its frames are pairwise different',
               'the nodes of the tree behave as proved for property C09; by induction over the events the hits of a '
               'position are the number of its call events']
