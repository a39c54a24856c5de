"""C14: contextual timers.

The time of a context is a pair: what it had when last paused, and the clock when it was resumed (none while paused).  With
R(t) the reading of an arbitrary context KAPPA at clock t, and arbitrary other contexts, from any state of the timer:
    pause(KAPPA) at n    ensures  R(t) == R_before(n) for every t            (n a clock reading made by the operation)
    resume(KAPPA) at n   requires paused or new      ensures  R(t) == (what it had) + t - n
    pause/resume of another context, reading any context:   ensures  R(t) == R_before(t)
    GreenletTimer: on a switch the origin is paused and the target resumed, nothing else
The state is arbitrary in two ways: the bookkeeping holds anything, and every state of two contexts reached by operations.
"""
from .common import *

CTX = 'profiling.tracing.timers:ContextualTimer'

SUBCLASS = '''
def main(Base, current):
    class T(Base):
        def detect_context(self):
            return current()
    return T
'''


class Clock(object):
    """time.clock returns an arbitrary number each time; `during` collects the readings of an operation."""

    def __init__(self, path):
        self.path = path
        self.readings = []
        self.fixed = None
        model(path, 'time.clock', self.read)

    def read(self, path, args, kwargs):
        if self.fixed is not None:
            return self.fixed
        v = SV('real', path.fresh('clock', REAL))
        self.readings.append(v)
        path.hint('clock reading', v)
        return v

    def during(self, fn):
        self.readings = []
        r, e = attempt(self.path, fn)
        self.path.check('the operation does not fail', e is None)
        if e is not None:
            raise PathEnd()
        return r, [v.t for v in self.readings]

    def at(self, t, fn):
        """the value of reading when the clock says t"""
        self.fixed = SV('real', t)
        try:
            r, e = attempt(self.path, fn)
        finally:
            self.fixed = None
        self.path.check('reading does not fail', e is None)
        if e is not None:
            raise PathEnd()
        t = num(self.path, r)
        return z3.ToReal(t) if z3.is_int(t) else t


class Subject(object):
    """A timer, its clock, and the current context"""

    def __init__(self, path, qual=CTX):
        self.path = path
        self.clock = Clock(path)
        self.current = None
        if qual == CTX:
            T = call(path, program(path, SUBCLASS), cls(path, qual), Builtin('current', lambda I, a, k: self.current))
            self.timer = path.interp.call(T, [], {})
        else:
            self.timer = new(path, qual)

    def context(self, name, *others):
        c = self.path.fresh_value('any', name)
        self.path.add(c.t != self.path.to_u(None))
        for o in others:
            self.path.add(z3.Not(eq(self.path, c, o)))
        return c

    def op(self, name, ctx, detect):
        """pause or resume a context, given or detected"""
        f = get(self.path, self.timer, name)
        if detect:
            self.current = ctx
            return self.clock.during(lambda: call(self.path, f))[1]
        return self.clock.during(lambda: call(self.path, f, ctx))[1]

    def value(self, t, ctx, detect=False):
        if detect:
            self.current = ctx
            return self.clock.at(t, lambda: call(self.path, self.timer))
        return self.clock.at(t, lambda: call(self.path, self.timer, ctx))


def instants(path, name='t', n=2):
    return [path.fresh(name, REAL) for _ in range(n)]


class State(object):
    """What a context has: base, and the clock at its resumption (None: paused)."""

    def __init__(self, base, since):
        self.base, self.since = base, since

    def at(self, t):
        return self.base if self.since is None else self.base + t - self.since


def arbitrary(S, kappa):
    """The bookkeeping holds anything; the state of kappa is split."""
    path = S.path
    d = dict_of(S.timer, '_contextual_times')
    if d is None:
        raise Unsupported('the bookkeeping is not a dictionary named _contextual_times')
    other = path.new_map('any', ('tup', ('real', ('opt', 'real'))), 'times')
    base, since = path.fresh('base', REAL), path.fresh('since', REAL)
    k = path.choose(3, 'new, paused or running')
    if k == 0:
        path.add(z3.Not(zb(other.present(kappa))))
        path.write(d, 'c', DictC(other))
        return State(z3.RealVal(0), z3.RealVal(0)), 'new'
    st = State(base, None if k == 1 else since)
    path.write(d, 'c', DictC(other, ((kappa, (SV('real', base), None if k == 1 else SV('real', since)), path.fresh('known', B)),)))
    return st, ('paused', 'running')[k - 1]


def reach(S, ctx, name):
    """Every state of a context, by operations"""
    path = S.path
    k = path.choose(3, name + ' new, paused or running')
    base, since = path.fresh('base', REAL), path.fresh('since', REAL)
    if k == 0:
        return State(z3.RealVal(0), z3.RealVal(0)), 'new'
    S.clock.at(base, lambda: call(path, get(path, S.timer, 'pause'), ctx) or 0)
    if k == 1:
        return State(base, None), 'paused'
    S.clock.at(since, lambda: call(path, get(path, S.timer, 'resume'), ctx) or 0)
    return State(base, since), 'running'


def check_state(S, ctx, st, what, detect=False):
    path = S.path
    for t in instants(path):
        path.check(what, S.value(t, ctx, detect) == st.at(t))


def one_of(path, what, ts, fn):
    path.check(what, z3.Or(*[fn(t) for t in ts]) if ts else z3.BoolVal(False))


def step(S, ctx, st, state, op, detect):
    """op on the context itself; returns its state"""
    path = S.path
    if op == 'read':
        S.current = ctx
        r, n = S.clock.during(lambda: call(path, S.timer) if detect else call(path, S.timer, ctx))
        r = num(path, r)
        if st.since is None:
            path.check('a paused context reads what it had', r == st.base)
        else:
            one_of(path, 'a running context reads its time up to now', n, lambda t: r == st.at(t))
        return st, state
    n = S.op(op, ctx, detect)
    t1, t2 = instants(path)
    v1, v2 = S.value(t1, ctx), S.value(t2, ctx)
    if op == 'pause':
        if st.since is None:
            path.check('pausing a paused context keeps its time', z3.And(v1 == st.base, v2 == st.base))
            return st, 'paused'
        one_of(path, 'pausing stops the time at that clock reading', n, lambda t: z3.And(v1 == st.at(t), v2 == st.at(t)))
        return State(v1, None), 'paused'
    one_of(path, 'resuming goes on from what it had', n, lambda t: z3.And(v1 == st.base + t1 - t, v2 == st.base + t2 - t))
    return State(v1 - t1, z3.RealVal(0)), 'running'


OPS = ('pause', 'resume', 'read')


def inductive(op, same, detect):
    def run(path):
        S = Subject(path)
        kappa = S.context('kappa')
        st, state = arbitrary(S, kappa)
        check_state(S, kappa, st, 'the reading of the state')
        if same:
            if op == 'resume' and state == 'running':
                raise PathEnd()
            st, state = step(S, kappa, st, state, op, detect)
        else:
            c = S.context('other', kappa)
            if op == 'read':
                S.current = c
                S.clock.during(lambda: call(path, S.timer) if detect else call(path, S.timer, c))
            else:
                S.op(op, c, detect)
        check_state(S, kappa, st, 'then the reading is that of the state', detect)
        path.cover('%s %s' % (op, state))
    return run


for _op in OPS:
    for _same in (True, False):
        for _detect in (False, True):
            contract('C14', '%s of %s context, %s' % (_op, 'the' if _same else 'another', 'detected' if _detect else 'given'),
                     ['profiling.tracing.timers'])(inductive(_op, _same, _detect))


def reached(op, same):
    """from every state of two contexts that operations lead to; two operations"""
    def run(path):
        S = Subject(path)
        a = S.context('a')
        b = S.context('b', a)
        sa, na = reach(S, a, 'a')
        sb, nb = reach(S, b, 'b')
        if op == 'resume' and (na if same else nb) == 'running':
            raise PathEnd()
        if same:
            sa, na = step(S, a, sa, na, op, False)
        else:
            sb, nb = step(S, b, sb, nb, op, False)
        for op2 in ('pause', 'resume'):
            if path.choose(2, op2 + ' next'):
                if op2 == 'resume' and na == 'running':
                    raise PathEnd()
                sa, na = step(S, a, sa, na, op2, True)
        check_state(S, a, sa, 'then the reading of a')
        check_state(S, b, sb, 'then the reading of b')
        path.cover('two contexts')
    return run


for _op in OPS:
    for _same in (True, False):
        contract('C14', '%s of the %s of two contexts' % (_op, 'first' if _same else 'second'), ['profiling.tracing.timers'],
                 max_paths=20000)(reached(_op, _same))


def separate(op):
    """operations on one timer do not change another"""
    def run(path):
        S = Subject(path)
        a = S.context('a')
        first = S.timer
        S.timer = path.interp.call(first.cls, [], {})
        second = S.timer
        sa, na = reach(S, a, 'a')
        S.timer = first
        S.op(op, a, False)
        S.timer = second
        check_state(S, a, sa, 'the reading of another timer')
        path.cover('two timers')
    return run


for _op in ('pause', 'resume'):
    contract('C14', '%s in another timer' % _op, ['profiling.tracing.timers'])(separate(_op))

# --- greenlets -------------------------------------------------------------------

GREENLET = Kind('greenlet')
GREENLET.truth = lambda I, o: True


def greenlets(third):
    def run(path):
        S = Subject(path, 'profiling.tracing.timers:GreenletTimer')
        hook = []
        model(path, 'greenlet.settrace', lambda p, a, k: hook.append(a[0]))
        current = [None]
        model(path, 'greenlet.getcurrent', lambda p, a, k: current[0])
        g = [ref(path, GREENLET, 'greenlet') for _ in range(3)]
        path.add(z3.And(g[0].t != g[1].t, g[1].t != g[2].t, g[0].t != g[2].t))
        call(path, get(path, S.timer, 'start'), ref(path, OPAQUE, 'profiler'))
        path.check('a hook for the switches is installed', len(hook) == 1 and hook[0] is not None)
        if len(hook) != 1:
            return
        # states of the three greenlets, reached through the timer while each is the current one
        ids = []
        for x in g:
            current[0] = x
            ids.append(call(path, get(path, S.timer, 'detect_context')))
        states = [reach(S, ids[i], 'greenlet %d' % i) for i in ((0, 1, 2) if third else (0, 1))]
        if states[1][1] == 'running':
            raise PathEnd()
        event = ('switch', 'throw')[path.choose(2, 'event')]
        current[0] = g[1]
        r, n = S.clock.during(lambda: call(path, hook[0], event, (g[0], g[1])))
        t1, t2 = instants(path)

        def read(i, t):
            current[0] = g[i]
            return S.clock.at(t, lambda: call(path, S.timer))
        o, t = states[0][0], states[1][0]
        if o.since is None:
            path.check('the greenlet switched from stays paused', z3.And(read(0, t1) == o.base, read(0, t2) == o.base))
        else:
            one_of(path, 'the greenlet switched from is paused', n, lambda c: z3.And(read(0, t1) == o.at(c), read(0, t2) == o.at(c)))
        one_of(path, 'the greenlet switched to is resumed', n, lambda c: z3.And(read(1, t1) == t.base + t1 - c, read(1, t2) == t.base + t2 - c))
        if third:
            path.check('other greenlets are left alone', z3.And(read(2, t1) == states[2][0].at(t1), read(2, t2) == states[2][0].at(t2)))
        else:
            path.check('new greenlets start at zero', z3.And(read(2, t1) == t1, read(2, t2) == t2))
        path.cover('switched')
    return run


contract('C14', 'a greenlet switch', ['profiling.tracing.timers'])(greenlets(False))
def to_itself(path):
    S = Subject(path, 'profiling.tracing.timers:GreenletTimer')
    hook = []
    model(path, 'greenlet.settrace', lambda p, a, k: hook.append(a[0]))
    g = ref(path, GREENLET, 'greenlet')
    model(path, 'greenlet.getcurrent', lambda p, a, k: g)
    call(path, get(path, S.timer, 'start'), ref(path, OPAQUE, 'profiler'))
    if len(hook) != 1:
        raise Unsupported('no hook for the switches')
    o, _ = reach(S, call(path, get(path, S.timer, 'detect_context')), 'greenlet')
    r, n = S.clock.during(lambda: call(path, hook[0], ('switch', 'throw')[path.choose(2, 'event')], (g, g)))
    t1, t2 = instants(path)
    v1, v2 = [S.clock.at(t, lambda: call(path, S.timer)) for t in (t1, t2)]
    # paused at one reading of the clock, if it was running, and resumed at the same or a later one
    one_of(path, 'a greenlet which switches to itself goes on running', [(a, b) for i, a in enumerate(n) for b in n[i:]],
           lambda c: z3.And(v1 == o.at(c[0]) + t1 - c[1], v2 == o.at(c[0]) + t2 - c[1]))
    path.cover('switched')


contract('C14', 'a greenlet switching to itself', ['profiling.tracing.timers'])(to_itself)
contract('C14', 'a greenlet switch and a third greenlet', ['profiling.tracing.timers'])(greenlets(True))

ASSUMPTIONS = ['the clock returns arbitrary numbers', 'contexts are resumed only when paused or new',
               'id() tells living greenlets apart', 'greenlet calls the trace hook with (origin, target) at every switch and throw']
