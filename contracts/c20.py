"""C20: the client shows what arrives and keeps reconnecting.

    handle(): one message is received from the current socket (contract of recv_msg, C16); the viewer is told exactly what the
        kind of the message asks for:  WELCOME -> activate();  PROFILER -> set_profiler_class(msg);
        RESULT -> set_result(*msg, title, now);  anything else -> nothing
        a connection error: the socket is watched no longer, and the viewer is inactivated, once
    fail-over client, invariant between events:  either an alarm for connecting is set and nothing is watched, or the current
        socket is watched for handle() and no alarm is set;  the current socket is a new, non-blocking one of the given family
        connecting (always to the given address):  at once or in progress -> watched;  nobody there -> a new socket and an
        alarm after the fail-over interval
        a connection error:  the socket is closed; a new one, and an alarm at once, after the interval if it was refused
    The state after every event is, up to the socket, the one after connecting at first: so histories of any length follow.
"""
import errno as E
from .common import *

SOCK = Kind('socket')
VIEWER = Kind('viewer')
LOOP = Kind('event loop')
for k in (SOCK, VIEWER, LOOP):
    k.truth = lambda I, o: True
fd_of = uf('fileno', U, INT)


def sock_attr(I, o, name):
    C = I.path.client
    path = I.path
    if name == 'fileno':
        return Builtin(name, lambda I, a, k: SV('int', fd_of(o.t)))
    s = C.sock(o)
    if name == 'connect_ex':
        return Builtin(name, lambda I, a, k: C.on_connect(s, a[0]))
    if name == 'connect':
        def connect(I, a, k):
            n = C.on_connect(s, a[0])
            if not isinstance(n, int) or n:
                raise I.exc('OSError', n, 'connect')
        return Builtin(name, connect)
    if name == 'setblocking':
        def setblocking(I, a, k):
            path.check('it does not block', z3.Not(zb(lib.term(I, lib.truth(I, a[0])))) if isinstance(a[0], SV) else not a[0])
            s.nonblocking = True
        return Builtin(name, setblocking)
    if name == 'settimeout':
        def settimeout(I, a, k):
            path.check('it does not block', eq(path, a[0], 0))
            s.nonblocking = True
        return Builtin(name, settimeout)
    if name == 'close':
        def close(I, a, k):
            path.check('a watched socket is not closed', s not in C.watched)
            s.closed += 1
        return Builtin(name, close)
    return NotImplemented


def viewer_attr(I, o, name):
    C = I.path.client
    if name in ('activate', 'inactivate', 'set_profiler_class', 'set_result'):
        def fn(I, a, k):
            names = ['stats', 'cpu_time', 'wall_time', 'title', 'at']
            a = list(a)
            if name == 'set_result':
                a = a + [k.get(n) for n in names[len(a):]]
            C.shown.append((name, a))
        return Builtin(name, fn)
    return NotImplemented


def loop_attr(I, o, name):
    C = I.path.client
    path = I.path
    if name == 'watch_file':
        def watch_file(I, a, k):
            s = C.by_fd(a[0])
            path.check('a socket is watched once', s is not None and s not in C.watched and not s.closed)
            C.watched[s] = a[1]
            return a[0]
        return Builtin(name, watch_file)
    if name == 'remove_watch_file':
        def remove(I, a, k):
            s = C.by_fd(a[0])
            C.removed.append(s)
            return C.watched.pop(s, None) is not None
        return Builtin(name, remove)
    if name == 'alarm':
        def alarm(I, a, k):
            C.alarms.append(tuple(a))
        return Builtin(name, alarm)
    return NotImplemented


SOCK.handler, VIEWER.handler, LOOP.handler = sock_attr, viewer_attr, loop_attr


class Sock(object):
    def __init__(self, ref):
        self.ref = ref
        self.nonblocking = False
        self.closed = 0
        self.connects = 0


class Client(object):
    REFUSED = [0, E.EINPROGRESS, E.ENOENT, E.ECONNREFUSED]

    def __init__(self, path, failover, protocol=None):
        self.path = path
        path.client = self
        self.socks, self.shown, self.watched, self.removed, self.alarms, self.got = [], [], {}, [], [], []
        self.failed = None
        model(path, 'socket.socket', self.new_socket)
        model(path, 'datetime.datetime.now', self.now)
        path.interp.models['profiling.remote:recv_msg'] = self.recv
        self.viewer, self.loop = ref(path, VIEWER, 'viewer'), ref(path, LOOP, 'loop')
        self.title = path.fresh_value(('opt', 'str'), 'title')
        self.addr = ref(path, OPAQUE, 'address')
        self.family = SV('int', path.fresh('family', INT))
        self.failover = failover
        self.expected_connect = True
        self.nows = []
        extra = {} if protocol is None else {'protocol': protocol}
        if failover:
            self.c = new(path, 'profiling.remote.client:FailoverProfilingClient', self.viewer, self.loop, self.addr, self.family,
                         self.title, **extra)
            self.interval = SV('real', path.fresh('interval', REAL))
            path.interp.setattr(self.c, 'failover_interval', self.interval)
        else:
            s = Sock(ref(path, SOCK, 'sock'))
            self.socks.append(s)
            self.c = new(path, 'profiling.remote.client:ProfilingClient', self.viewer, self.loop, s.ref, self.title, **extra)

    def now(self, path, a, k):
        v = path.fresh_value('any', 'now')
        self.nows.append(v)
        return v

    def new_socket(self, path, a, k):
        family = a[0] if a else k.get('family')
        path.check('a socket of the given family', eq(path, family, self.family))
        s = Sock(ref(path, SOCK, 'sock'))
        for o in self.socks:
            path.add(fd_of(o.ref.t) != fd_of(s.ref.t))
            path.add(o.ref.t != s.ref.t)
        self.socks.append(s)
        return s.ref

    def sock(self, o):
        for s in self.socks:
            if self.path.must(s.ref.t == o.t):
                return s
        raise Unsupported('unknown socket')

    def by_fd(self, fd):
        for s in self.socks:
            if self.path.must(fd_of(s.ref.t) == num(self.path, fd)):
                return s
        return None

    @property
    def current(self):
        return self.sock(get(self.path, self.c, 'sock'))

    def on_connect(self, s, addr):
        path = self.path
        path.check('it connects to the given address', eq(path, addr, self.addr))
        path.check('with the current socket', s is self.current)
        path.check('which does not block', s.nonblocking)
        path.check('and is new', not s.connects and not s.closed)
        s.connects += 1
        i = path.choose(len(self.REFUSED) + 1, 'connecting')
        if i < len(self.REFUSED):
            self.outcome = self.REFUSED[i]
            return self.outcome
        v = SV('int', path.fresh('errno', INT))
        for n in self.REFUSED:
            path.add(v.t != n)
        self.outcome = v
        return v

    def recv(self, path, a, k):
        path.check('it is received from the current socket', path.must(a[0].t == self.current.ref.t))
        path.check('which is open', not self.current.closed)
        self.got.append(None)
        path.check('one message at a time', len(self.got) == 1)
        i = path.choose(4, 'what arrives')
        if i == 0:
            if path.choose(2, 'refused'):
                n = E.ECONNREFUSED
            else:
                n = SV('int', path.fresh('errno', INT))
                path.add(n.t != E.ECONNREFUSED)
            self.failed = n
            raise path.interp.exc('OSError', n, 'broken')
        method = SV('int', path.fresh('method', INT))
        path.hint('method', method)
        if i == 1:
            path.add(method.t == 0x12)
            msg = (ref(path, OPAQUE, 'stats'), path.fresh_value('real', 'cpu'), path.fresh_value('real', 'wall'))
        elif i == 2:
            path.add(z3.And(method.t != 0x12, method.t != 0x10, method.t != 0x11))
            msg = path.fresh_value('any', 'message')
        else:
            if path.choose(2, 'welcome'):
                path.add(method.t == 0x10)
                msg = path.fresh_value('any', 'message')
            else:
                path.add(method.t == 0x11)
                msg = ref(path, OPAQUE, 'profiler class')
        self.got[-1] = (method, msg)
        return method, msg

    # --- checks -----------------------------------------------------------------

    def same(self, got, want):
        if got[0] != want[0] or len(got[1]) != len(want[1]):
            return z3.BoolVal(False)
        return z3.And([z3.BoolVal(True)] + [eq(self.path, a, b) for a, b in zip(got[1], want[1])])

    def handle(self, fn, custom=None):
        """the callback of the event loop"""
        path = self.path
        self.got, self.shown, self.removed, self.failed, self.nows = [], [], [], None, []
        s = self.current
        _, e = attempt(path, lambda: call(path, fn))
        path.check('handling does not fail', e is None, detail=repr(e and (e, e.d)))
        if e is not None:
            raise PathEnd()
        path.check('one message is received', len(self.got) == 1)
        if self.failed is not None:
            path.check('the viewer is inactivated', [x[0] for x in self.shown] == ['inactivate'])
            path.check('the socket is not watched any more', s not in self.watched and s in self.removed)
            path.cover('broken')
            return self.failed
        path.check('the socket is still the same', self.current is s)
        path.check('the socket is still watched', s in self.watched and not s.closed)
        method, msg = self.got[0]
        if custom is not None:
            return None
        m = method.t
        want = []
        if path.must(m == 0x10):
            want = [('activate', [])]
        elif path.must(m == 0x11):
            want = [('set_profiler_class', [msg])]
        elif path.must(m == 0x12):
            path.check('the time is taken once', len(self.nows) == 1)
            want = [('set_result', list(msg) + [self.title] + self.nows)]
        path.check('the viewer is told once' if want else 'nothing is shown', len(self.shown) == len(want))
        for a, b in zip(self.shown, want):
            path.check('what arrived is shown: %s' % b[0], self.same(a, b))
        path.cover(want[0][0] if want else 'unknown kind')
        return None


@contract('C20', 'a client', ['profiling.remote.client'])
def client(path):
    """two messages"""
    C = Client(path, False)
    call(path, get(path, C.c, 'start'))
    s = C.socks[0]
    path.check('the socket is watched', s in C.watched)
    for i in range(2):
        if s not in C.watched:
            return
        if C.handle(C.watched[s]) is not None:
            path.check('nothing is opened', len(C.socks) == 1 and not C.alarms)
            return


@contract('C20', 'another protocol', ['profiling.remote.client'])
def other_protocol(path):
    """a given protocol gets every message as it is, and this client"""
    seen = []
    C = Client(path, False, Builtin('protocol', lambda I, a, k: seen.append(a)))
    call(path, get(path, C.c, 'start'))
    if C.socks[0] not in C.watched:
        return
    if C.handle(C.watched[C.socks[0]], True) is None:
        path.check('it is called once', len(seen) == 1 and not C.shown)
        method, msg = C.got[0]
        path.check('with the message', z3.And(eq(path, seen[0][0], method), eq(path, seen[0][1], msg)))
        path.check('and the client', seen[0][2] is C.c)


def failover(events):
    def run(path):
        C = Client(path, True)
        _, e = attempt(path, lambda: call(path, get(path, C.c, 'start')))
        path.check('starting does not fail', e is None)
        want_delay = 0
        for i in range(events):
            # between events
            s = C.current
            path.check('an alarm or a watched socket', len(C.alarms) + len(C.watched) == 1)
            path.check('the current socket is open', s is C.socks[-1] and not s.closed and s.nonblocking)
            if C.alarms:
                delay, fn = C.alarms.pop()
                path.check('the right delay', eq(path, delay, want_delay))
                path.check('a new socket', s.connects == 0)
                _, e = attempt(path, lambda: call(path, fn))
                path.check('it connects', s.connects == 1)
                n = C.outcome
                if isinstance(n, SV):
                    path.check('other errors are reported', e is not None)
                    path.cover('other error')
                    return
                path.check('connecting does not fail', e is None)
                if n in (E.ENOENT, E.ECONNREFUSED):
                    path.check('a new socket is made', len(C.socks) >= 2 and C.current is not s)
                    path.check('nothing is watched', not C.watched)
                    want_delay = C.interval
                    path.cover('nobody there')
                else:
                    path.check('the socket is watched', list(C.watched) == [s])
                    path.check('no alarm is set', not C.alarms)
                    path.cover('connected')
            else:
                path.check('the current socket is watched', s in C.watched)
                if s not in C.watched:
                    return
                r = C.handle(C.watched[s])
                if r is not None:
                    path.check('the broken socket is closed once', s.closed == 1)
                    path.check('nothing is watched', not C.watched)
                    path.check('a new socket is made', C.current is not s)
                    want_delay = C.interval if not isinstance(r, SV) else 0
                    path.cover('reconnects')
                else:
                    path.check('no alarm is set', not C.alarms)
    return run


contract('C20', 'a fail-over client', ['profiling.remote.client'], max_paths=40000)(failover(4))


@contract('C20', 'the state of a fail-over client', ['profiling.remote.client'], max_paths=40000)
def canonical(path):
    """after every event nothing but the socket differs from the state before: histories of any length follow by induction"""
    C = Client(path, True)
    call(path, get(path, C.c, 'start'))
    own = Snapshot(path, C.c, C.c.cls, skip=('sock',))
    for i in range(3):
        if C.alarms:
            delay, fn = C.alarms.pop()
            _, e = attempt(path, lambda: call(path, fn))
            if e is not None:
                return
        else:
            if C.current not in C.watched:
                raise Unsupported('nothing is watched')
            C.handle(C.watched[C.current])
        same = own.unchanged()
        if not path.must(same):
            raise Unsupported('the client keeps more state: histories are not covered by induction')
        path.check('only the socket has changed', same)


ASSUMPTIONS = ['recv_msg: contract of C16 (a whole message or a connection error)',
               'the event loop calls the callback of a watched socket when something arrives, an alarm once after its delay; '
               'watch_file() returns the file descriptor (urwid SelectEventLoop, the one the command line uses)',
               'two open sockets have different file descriptors; connect_ex gives any errno']
