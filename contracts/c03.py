"""C03: traced time is elapsed time net of the profiler's own overhead.

For every event, with `first` and `last` the first and last clock reading of its handler:
    overhead' == overhead + (last - first)                              (nothing for C function events)
    'call' of frame f:   entry(f) == last - overhead'
    'return' of frame f: time'(K) == time(K) + max(0, first - overhead - entry(f)) at its call path K, if it was entered;
                         entry(f) is used up;  no other time and no other entry changes
Together: the time grows by (first of the return) - (last of the call) - the overhead in between.
    result(): CPU time == max(0, base CPU time - overhead)
"""
from .common import *
from .process import Process
from .trie import ROOT, Trie, captured, frame_stack_model
from .c02 import profiler, EVENTS


def overhead(path, p):
    return num(path, get(path, p, 'overhead'))


def span(ck):
    return ck.readings[-1].t - ck.readings[0].t if ck.readings else z3.RealVal(0)


def entries(path, p):
    return dict_of(p, '_times_entered')


def changes(before, after):
    """The entries written since `before`, as (key, value or MISSING) pairs."""
    if after is before:
        return []
    if after.base is not before.base:
        raise Unsupported('the entry times are replaced')
    old = list(before.items)
    return [(k, v) for k, v, _ in after.items if not any(k is k2 and v is v2 for k2, v2, _ in old)] + \
           [(k, MISSING) for k, v, _ in old if not any(k is k2 for k2, _, _ in after.items)]


def times(path, T, what, callers, frame, grown=None):
    here, passed = T.walk(callers)
    at = T.kappa == T.child(here, get(path, frame, 'f_code'))
    if grown is None:
        path.check('%s: no time changes' % what, T.g('time') == T.e('time'))
    else:
        path.check('%s: the time grows at the call path by what elapsed, nowhere else' % what,
                   T.g('time') == T.e('time') + z3.If(z3.And(at, z3.Not(T.e('void'))), grown, 0))


def event(event_):
    def run(path):
        p, T, ck = profiler(path)
        frame = ref(path, FRAME, 'frame')
        stack, callers = captured(path, frame)
        frame_stack_model(path, frame, stack)
        d = entries(path, p)
        c0, o0 = d.d['c'], overhead(path, p)
        here, passed = T.walk(callers)
        tau = T.child(here, get(path, frame, 'f_code'))
        known = T.at(tau, 'present', B)
        r, e = attempt(path, lambda: call(path, get(path, p, '_profile'), frame, event_, None))
        path.check('does not fail', e is None)
        first = ck.readings[0].t if ck.readings else None
        ch = changes(c0, d.d['c'])
        if event_.startswith('c_'):
            path.check('events of C functions cost nothing', overhead(path, p) == o0)
        else:
            path.check('the handling of the event is overhead', overhead(path, p) == o0 + span(ck))
        if event_ == 'call':
            path.check('one entry is recorded', len(ch) == 1 and ch[0][1] is not MISSING)
            if len(ch) == 1 and ch[0][1] is not MISSING:
                path.check('the entry is recorded net of the overhead',
                           num(path, ch[0][1]) == ck.readings[-1].t - overhead(path, p))
            times(path, T, 'call', callers, frame)
        elif event_ == 'return':
            path.check('at most one entry is used up', len(ch) == 0 or len(ch) == 1 and ch[0][1] is MISSING)
            if len(ch) == 1 and path.decide(known):
                entered = num(path, lib.dict_get(path.interp, PyDict(c0), ch[0][0]))
                el = first - o0 - entered
                times(path, T, 'return', callers, frame, z3.If(el > 0, el, z3.RealVal(0)))
                path.cover('matched return')
            else:
                times(path, T, 'return of a frame whose entry was not seen', callers, frame)
                path.cover('unmatched return')
        else:
            times(path, T, event_, callers, frame)
            path.check('%s: the entries stay' % event_, ch == [])
        path.check('the hits of no position but the call path change',
                   z3.Implies(T.kappa != tau, T.g('hits') == T.e('hits')))
        path.cover('event')
    return run


for _e in EVENTS:
    contract('C03', 'times on %s' % _e, ['profiling.tracing'])(event(_e))


@contract('C03', 'from call to return', ['profiling.tracing'])
def run_call_return(path):
    """call, then any other events (by their contracts), then the return of the same frame"""
    p, T, ck = profiler(path)
    frame = ref(path, FRAME, 'frame')
    stack, callers = captured(path, frame)
    frame_stack_model(path, frame, stack)
    here, passed = T.walk(callers)
    tau = T.child(here, get(path, frame, 'f_code'))
    path.assume(T.kappa == tau)
    d = entries(path, p)
    c0 = d.d['c']
    call(path, get(path, p, '_profile'), frame, 'call', None)
    entered = ck.readings[-1].t
    before = T.g('time')
    ch = changes(c0, d.d['c'])
    path.check('one entry is recorded', len(ch) == 1 and ch[0][1] is not MISSING)
    if len(ch) != 1:
        return
    key, v = ch[0]
    # the events in between: they cost `mid` and leave the entry of this frame
    mid = path.fresh('overhead in between', REAL)
    path.assume(mid >= 0)
    path.interp.setattr(p, 'overhead', SV('real', overhead(path, p) + mid))
    m = path.new_map(('tup', (('ref', CODE), 'int')), 'real', 'entered later')
    path.assume(z3.Not(zb(m.present(key))))
    path.write(d, 'c', DictC(m, ((key, v, False),)))
    n = len(ck.readings)
    T.mark()
    frame_stack_model(path, frame, stack)
    r, e = attempt(path, lambda: call(path, get(path, p, '_profile'), frame, 'return', None))
    path.check('does not fail', e is None)
    el = ck.readings[n].t - entered - mid
    path.hint('elapsed', el)
    path.check('the time grows by the elapsed time net of the overhead', T.g('time') == before + z3.If(el > 0, el, z3.RealVal(0)))
    path.check('the time never shrinks', T.g('time') >= before)
    path.check('the entry is used up', z3.Not(zb(lib.dict_has(path.interp, d.d['c'], key))))
    path.cover('call and return')
    after = T.g('time')
    T.mark()
    r, e = attempt(path, lambda: call(path, get(path, p, '_profile'), frame, 'return', None))
    path.check('a second return changes no time', T.g('time') == after)


@contract('C03', 'entries of different frames', ['profiling.tracing'])
def run_recursion(path):
    """Frames, also of the same code, have their own entries: only its own return uses an entry up."""
    p, T, ck = profiler(path)
    f1, f2 = ref(path, FRAME, 'one'), ref(path, FRAME, 'other')
    path.assume(f1.t != f2.t)
    if path.choose(2, 'the same function'):
        path.assume(FRAME.attr_u(f1.t, 'f_code') == FRAME.attr_u(f2.t, 'f_code'))
    d = entries(path, p)
    keys = []
    path.assume(T.kappa == T.child(ROOT, get(path, f2, 'f_code')))
    for f in (f1, f2):
        c0 = d.d['c']
        frame_stack_model(path, f, (Unit(f),))
        call(path, get(path, p, '_profile'), f, 'call', None)
        ch = changes(c0, d.d['c'])
        path.check('one entry is recorded', len(ch) == 1)
        if len(ch) != 1:
            return
        keys.append(ch[0])
    path.check('different frames have different entries', z3.Not(eq(path, keys[0][0], keys[1][0])))
    # the return uses the entry of its own frame
    frame_stack_model(path, f2, (Unit(f2),))
    call(path, get(path, p, '_profile'), f2, 'return', None)
    path.check('a return uses up its own entry', z3.Not(zb(lib.dict_has(path.interp, d.d['c'], keys[1][0]))))
    path.check('a return keeps the entry of another frame', zb(lib.dict_has(path.interp, d.d['c'], keys[0][0])))
    path.cover('two frames')


@contract('C03', 'TracingProfiler.result', ['profiling.tracing'])
def run_result(path):
    from .c27 import Clocks
    P = Process(path, False)
    ck = Clocks(path)
    t = new(path, 'profiling.tracing.timers:Timer')
    p = new(path, 'profiling.tracing:TracingProfiler', timer=t)
    path.interp.setattr(p, 'overhead', SV('real', path.fresh('stale overhead', REAL)))
    d = dict_of(p, '_times_entered')
    if d is not None:
        path.write(d, 'c', DictC(path.new_map(('tup', (('ref', CODE), 'int')), 'real', 'stale')))
    call(path, get(path, p, 'start'))
    c0 = ck.n['time.clock'][0]
    path.check('no overhead at the start', overhead(path, p) == 0)
    if d is not None:
        k = path.fresh_value(('tup', (('ref', CODE), 'int')), 'key')
        path.check('no entries at the start', z3.Not(zb(lib.dict_has(path.interp, d.d['c'], k))))
    o = path.fresh('overhead', REAL)
    path.assume(o >= 0)
    path.interp.setattr(p, 'overhead', SV('real', o))
    for i in range(2):
        ck.mark()
        r, e = attempt(path, lambda: call(path, get(path, p, 'result')))
        path.check('result does not fail', e is None)
        el = ck.only('time.clock').t - num(path, c0) - o
        path.check('the CPU time excludes the overhead and is never negative',
                   num(path, r[1]) == z3.If(el > 0, el, z3.RealVal(0)))
        path.check('the result carries the live statistics', r[0] is get(path, p, 'stats'))
        path.cover('result')


ASSUMPTIONS = ['clock readings never decrease; two frames alive have different id()s',
               'the captured stack is the one of property C01, the nodes of the tree those of property C09',
               'the events between a call and its return are summed up by the contracts of single events: each adds its '
               'own handling time to the overhead and leaves the entries of other frames (obligations "times on ...")']
