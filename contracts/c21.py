"""C21: waiting for sockets honours interruptions and the timeout.

    select_sockets(timeout), every wait:  on exactly the clients and the listener, for reading only
        without a timeout: without a limit;  with one: for not more than what is left since the first wait began, and not less
        than what is left of the time since the call;  never negative
      result: what the last wait returned;  nothing only if the time has passed;  EINTR and ValueError: another wait, as long as
        time is left;  any other error is passed on.  Loop invariant: time of the last reading + time left is constant.
    serve_forever(): dispatches without a timeout until an error, which is passed on
    dispatch_sockets(timeout): waits once with this timeout; then for every ready socket in order: the listener -> one accepted
        and connected() client;  a client -> disconnected(), whether it has sent something, ended or was reset
"""
import errno as E
from .server import *

READY = Kind('ready')


class Waiting(Server):
    impl = 'select'

    def __init__(self, path, timed):
        Server.__init__(self, path)
        self.select()
        g = path.ghost.d
        self.timed = timed
        g['now'] = SV('real', path.fresh('now', REAL))
        g['returned'] = g['now']      # when the last wait ended
        g['last'] = SV('int', z3.IntVal(0))      # how it ended: 0 no wait, 1 ready, 2 timed out, 3 retry
        self.entry = g['now'].t
        self.timeout = SV('real', path.fresh('timeout', REAL)) if timed else None
        if timed:
            path.add(self.timeout.t >= 0)
        path.hint('timeout', self.timeout)
        self.first = None
        g['first'] = SV('real', z3.RealVal(0))    # when the first wait began
        g['waited'] = SV('bool', z3.BoolVal(False))
        self.any_clients(('ref', SOCK))
        self.x = ref(path, SOCK, 'any')
        self.watch(self.x)
        self.watch(self.listener)
        path.add(z3.Not(self.has(self.listener)))
        self.on_map(self.server.d['clients'].d['c'].base)
        model(path, 'select.select', self.on_select)
        for n in ('time.time', 'time.monotonic', 'time.perf_counter'):
            model(path, n, self.reading)
        path.interp.candidates = self.candidates
        self.error = None
        self.listening = True

    def nolistener(self):
        self.listening = False
        self.path.interp.setattr(self.server, 'listener', None)

    def pass_time(self, least=None):
        path = self.path
        v = path.fresh('now', REAL)
        now = path.ghost.d['now'].t
        path.add(v >= now)
        if least is not None:
            path.add(v >= now + least)
        path.write(path.ghost, 'now', SV('real', v))
        return v

    def reading(self, path, a, k):
        return SV('real', self.pass_time())

    @property
    def left(self):
        """bounds of the time that is left, for a wait beginning now"""
        g = self.path.ghost.d
        T = self.timeout.t
        first = z3.If(g['waited'].t, g['first'].t, g['now'].t)
        since = z3.If(g['waited'].t, g['returned'].t, g['now'].t)
        return self.entry + T - g['now'].t, first + T - since

    def member(self, s, x):
        path = self.path
        if isinstance(s, PySet):
            return zb(lib.dict_has(path.interp, s.d['c'], x))
        if isinstance(s, (PyList, tuple)):
            u = path.to_u(x)
            return Sum('is watched', lambda v: z3.If(path.to_u(v) == u, 1, 0), INT, True).eval(path, seq_of(path, s)) > 0
        raise Unsupported('waiting for %r' % (s,))

    def on_select(self, path, a, k):
        g = path.ghost.d
        I = path.interp
        r, w, x = a[:3]
        t = a[3] if len(a) > 3 else k.get('timeout')
        want = self.has(self.x)
        if self.listening:
            want = z3.Or(want, self.x.t == self.listener.t)
        path.check('it waits for the clients and the listener', self.member(r, self.x) == want)
        for other in (w, x):
            path.check('it waits for nothing else', other in ((), []) or path.empty(path.norm(I.to_seq(other))))
        path.check('a limit exactly if there is a timeout', (t is not None) == self.timed)
        if self.timed and t is not None:
            t = num(path, t)
            lo, hi = self.left
            path.check('it waits only for the time that is left', t <= hi)
            path.check('it waits for all the time that is left', t >= lo)
            path.check('it does not wait for a negative time', t >= 0)
        path.write(path.ghost, 'first', SV('real', z3.If(g['waited'].t, g['first'].t, g['now'].t)))
        path.write(path.ghost, 'waited', SV('bool', z3.BoolVal(True)))
        how = path.choose(5 if self.timed else 4, 'how waiting ends')
        path.write(path.ghost, 'last', SV('int', z3.IntVal([1, 3, 3, 4, 2][how])))
        self.pass_time(t if how == 4 else None)
        path.write(path.ghost, 'returned', path.ghost.d['now'])
        if how == 1:
            raise I.exc('ValueError', 'negative file descriptor')
        if how == 2:
            raise I.exc('OSError', E.EINTR, 'interrupted')
        if how == 3:
            n = SV('int', path.fresh('errno', INT))
            path.add(n.t != E.EINTR)
            self.error = I.exc('OSError', n, 'another')
            raise self.error
        self.ready = ()
        if how == 0:
            self.ready = (Var(path.new_seq(('ref', SOCK), 'ready')),)
            path.add(path.length(self.ready) > 0)
        out = PyList()
        out.d['seq'] = self.ready
        return (out, PyList(), PyList())

    def candidates(self, lv):
        path = self.path
        g = path.ghost.d
        entry = lv.cut.entry
        cur = lambda k: g[k].t
        locs = [l for l in lv.numeric() if not lv.label(l).startswith('Ghost')]
        fixed = []
        for name, v in sorted(lv.cut.frames[-1].d.items(), key=str):
            if isinstance(v, SV) and v.kind in ('real', 'int'):
                fixed.append((str(name), num(path, v)))
        yield ('time goes on', lambda: z3.And(cur('now') >= self.entry, cur('returned') <= cur('now')))
        yield ('the first wait was after the call', lambda: z3.Implies(cur('waited'), cur('first') >= self.entry))
        yield ('the first wait began before the last one ended', lambda: z3.Implies(cur('waited'), cur('first') <= cur('returned')))
        yield ('no wait has ended for good', lambda: z3.Or(cur('last') == 0, cur('last') == 3))
        yield ('waited before', lambda: cur('waited') == (cur('last') != 0))
        if not self.timed:
            return
        T = self.timeout.t
        for i, l in enumerate(locs):
            v, v0 = (lambda l=l: num(path, lv.val(l))), (lambda l=l: num(path, lv.entry(l)))
            n = lv.label(l)
            yield ('%s was read' % n, lambda v=v: z3.And(v() <= cur('now'), v() >= self.entry))
            yield ('%s was read before the first wait' % n, lambda v0=v0: v0() <= z3.If(cur('waited'), cur('first'), cur('now')))
            yield ('%s was read after the last wait' % n, lambda v=v: z3.And(v() >= cur('returned'), v() <= cur('now')))
            yield ('%s is at least what is left' % n, lambda v=v: v() >= self.left[0])
            yield ('%s is at most what is left' % n, lambda v=v: v() <= self.left[1])
            yield ('%s is the timeout before the first wait' % n, lambda v=v: z3.Implies(z3.Not(cur('waited')), v() == T))
            yield ('%s >= 0' % n, lambda v=v: v() >= 0)
            yield ('%s > 0 after a wait' % n, lambda v=v: z3.Implies(cur('waited'), v() > 0))
            for m in locs[i + 1:]:
                w, w0 = (lambda m=m: num(path, lv.val(m))), (lambda m=m: num(path, lv.entry(m)))
                yield ('%s + %s is constant' % (n, lv.label(m)), lambda v=v, w=w, v0=v0, w0=w0: v() + w() == v0() + w0())
            for name, f in fixed:
                yield ('the deadline %s is one' % name, lambda f=f: z3.And(f >= self.entry + T, f <= z3.If(cur('waited'), cur('first'), cur('now')) + T))
                yield ('%s + %s is the timeout' % (n, name), lambda v=v, f=f: v() + f == T)
                yield ('%s is what is left until %s' % (n, name), lambda v=v, f=f: z3.Implies(
                    cur('waited'), z3.And(v() <= f - cur('returned'), v() >= f - cur('now'))))


def waiting(timed, listening=True):
    def run(path):
        S = Waiting(path, timed)
        if not listening:
            S.nolistener()
        f = get(path, S.server, 'select_sockets')
        r, e = attempt(path, lambda: call(path, f, S.timeout) if timed else call(path, f))
        last = path.ghost.d['last'].t
        if e is not None:
            path.check('only the error of waiting is passed on', S.error is not None and e is S.error.value)
            path.cover('another error')
            return
        path.check('another error is passed on', last != 4)
        got = seq_of(path, r)
        if path.decide(last == 1):
            path.check('what is ready is returned', path.seq_eq(got, S.ready))
            path.cover('ready')
        else:
            path.check('nothing is ready', path.seq_eq(got, ()))
            path.check('it waits until something is ready', timed)
            if timed:
                path.check('the time has passed', path.ghost.d['now'].t >= S.entry + S.timeout.t)
                path.cover('timed out')
    return run


contract('C21', 'waiting with a timeout', ['profiling.remote.select'])(waiting(True))
contract('C21', 'waiting without a timeout', ['profiling.remote.select'])(waiting(False))
contract('C21', 'waiting without a listener', ['profiling.remote.select'])(waiting(True, False))

conn_ev, disc_ev = uf('connected()', U, U), uf('disconnected()', U, U)


def dispatching(listening, timed=True):
    def run(path):
        S = Waiting(path, timed)
        if not listening:
            S.nolistener()
        I = path.interp
        path.ghost.d['events'] = ()
        path.ghost.d['failed'] = SV('bool', z3.BoolVal(False))
        acc = ref(path, SOCK, 'accepted')
        ready = (Var(path.new_seq(('ref', SOCK), 'ready')),)
        asked = []

        def wait(p, a, k):
            asked.append(a[1] if len(a) > 1 else k.get('timeout'))
            out = PyList()
            out.d['seq'] = ready
            return out

        def event(f):
            def fn(p, a, k):
                p.write(p.ghost, 'events', p.ghost.d['events'] + (Unit(SV('any', f(p.to_u(a[1])))),))
            return fn

        def expected(v):
            u = path.to_u(v)
            if not listening:
                return SV('any', disc_ev(u))
            return SV('any', z3.If(u == S.listener.t, conn_ev(acc.t), disc_ev(u)))

        def recv(I, o):
            how = path.choose(4, 'what is received')
            if how == 3:
                n = SV('int', path.fresh('errno', INT))
                path.add(n.t != E.ECONNRESET)
                path.write(path.ghost, 'failed', SV('bool', z3.BoolVal(True)))
                raise I.exc('OSError', n, 'recv')
            if how == 2:
                raise I.exc('OSError', E.ECONNRESET, 'reset')
            return b'' if how else path.fresh_value('bytes', 'data')

        def accept(I, o):
            path.check('only the listener accepts', o.t == S.listener.t if listening else False)
            return (acc, ref(path, OPAQUE, 'address'))
        path.dispatch = {'recv': recv, 'accept': accept}
        I.models['profiling.remote.select:SelectProfilingServer.select_sockets'] = wait
        I.models['profiling.remote:ProfilingServer.connected'] = event(conn_ev)
        I.models['profiling.remote:ProfilingServer.disconnected'] = event(disc_ev)
        want = lambda P: tuple(path.mapped(p, (expected,), 'expected') for p in P)

        def candidates(lv):
            if lv.is_for:
                yield ('events of what was handled', lambda: ('seqeq', path.ghost.d['events'], want(lv.P)))
            yield ('nothing failed', lambda: z3.Not(path.ghost.d['failed'].t))
        I.candidates = candidates
        f = get(path, S.server, 'dispatch_sockets')
        r, e = attempt(path, lambda: call(path, f, S.timeout) if timed else call(path, f))
        path.check('it waits once', len(asked) == 1)
        path.check('with the timeout', eq(path, asked[0], S.timeout) if timed else asked[0] is None)
        if e is not None:
            path.check('only other errors of receiving are passed on',
                       z3.And(path.ghost.d['failed'].t, z3.BoolVal(is_exc(path, e, 'OSError'))))
            path.cover('another error')
            return
        path.check('every ready socket is handled, in order', path.seq_eq(path.ghost.d['events'], want(ready)))
        path.cover('dispatched')
    return run


_sock = SOCK.handler


def sock_attr(I, o, name):
    d = getattr(I.path, 'dispatch', None)
    if d is not None and name in d:
        return Builtin(name, lambda I, a, k: d[name](I, o))
    return _sock(I, o, name)


SOCK.handler = sock_attr
contract('C21', 'dispatching', ['profiling.remote.select'])(dispatching(True))
contract('C21', 'dispatching without a timeout', ['profiling.remote.select'])(dispatching(True, False))
contract('C21', 'dispatching without a listener', ['profiling.remote.select'])(dispatching(False))


@contract('C21', 'serving', ['profiling.remote.select'])
def serving(path):
    """serve_forever(): dispatches without a timeout, again and again, until an error, which is passed on"""
    S = Waiting(path, False)
    path.ghost.d['times'] = 0
    raised = []

    def dispatch(p, a, k):
        t = a[1] if len(a) > 1 else k.get('timeout')
        p.check('it serves without a timeout', t is None)
        p.write(p.ghost, 'times', SV('int', num(p, p.ghost.d['times']) + 1))
        if p.choose(2, 'dispatching') == 1:
            e = p.interp.exc('OSError', E.EBADF, 'bad')
            raised.append(e.value)
            raise e
    path.interp.models['profiling.remote.select:SelectProfilingServer.dispatch_sockets'] = dispatch
    path.interp.candidates = lambda lv: iter([('some rounds', lambda: num(path, path.ghost.d['times']) >= 0)])
    r, e = attempt(path, lambda: call(path, get(path, S.server, 'serve_forever')))
    path.check('it serves until an error', bool(raised))
    path.check('the error is passed on', e is not None and bool(raised) and e is raised[-1])
    path.cover('served')


ASSUMPTIONS = ['the clock does not go backwards during a wait (time.time, time.monotonic: any nondecreasing readings)',
               'select() with a timeout returns nothing only after that time has passed',
               'a ready client socket is still a client when it is handled (checked at C17/C18: disconnected() tolerates others)',
               'errors of recv() other than a reset are passed on by the code: not claimed otherwise']
