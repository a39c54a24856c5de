"""C21: waiting for sockets."""
import errno
import itertools
import select
import socket
import time

REAL = {}
FAKE = {}


def patch(m, name):
    """what the module finds there is replaceable, however it is imported"""
    real = getattr(m, name)
    REAL[name] = real

    def fn(*a, **k):
        f = FAKE.get(name, real)
        return f(*a, **k)
    fn.__name__ = name
    setattr(m, name, fn)


patch(select, 'select')
for n in ('time', 'monotonic', 'perf_counter'):
    patch(time, n)

from profiling.remote.select import SelectProfilingServer      # noqa: E402
from servers import Prof, Wrap      # noqa: E402

RULE = ('waits: every script of up to 3 (thorough: 4) outcomes of select() x time passing, x timeout (none, 0, 1, 2.5) x time for reading the clock; '
        'dispatches: every list of up to 3 ready sockets (listener, clients which sent, ended, were reset, failed otherwise); real sockets; '
        'distinct = different scripts')


FAILS = [errno.ETIMEDOUT, errno.EPIPE, errno.ECONNABORTED, errno.EHOSTUNREACH, errno.EBADF]
ERRORS = [errno.EBADF, errno.ECONNRESET, errno.EINVAL, errno.EAGAIN, errno.ENOMEM, errno.ETIMEDOUT, errno.EPIPE]


class Endless(BaseException):
    pass


class Sock(object):
    def __init__(self, name, how='data', accepts=None):
        self.name, self.how, self.accepts = name, how, accepts
        self.sent, self.closed, self.received = [], 0, 0

    def __repr__(self):
        return '<%s %s>' % (self.name, self.how)

    def recv(self, n, *flags):
        self.received += 1
        if self.how == 'reset':
            raise socket.error(errno.ECONNRESET, 'reset')
        if self.how == 'fails':
            raise socket.error(FAILS[len(self.name) * 3 % len(FAILS)], 'fails')
        return b'' if self.how == 'end' else b'x' * min(n, 5)

    def accept(self):
        return self.accepts.pop(0), ('127.0.0.1', 1234)

    def sendall(self, data, *flags):
        if self.closed:
            raise socket.error(errno.EBADF, 'closed')
        self.sent.append(data)

    def close(self):
        self.closed += 1

    def getpeername(self):
        return ('127.0.0.1', 4321)

    def fileno(self):
        return id(self) % 1000


class Server(SelectProfilingServer):
    starts = 0

    def _start_profiling(self):
        self.starts += 1


def server(listener, clients=()):
    s = Server(listener, Wrap(Prof()))
    s.clients.update(clients)
    return s


class World(object):
    """scripted select() and clock"""

    def __init__(self, H, inp, script, timeout, cost, watched, entry=1000.0):
        self.H, self.inp, self.script, self.timeout, self.cost, self.watched = H, inp, list(script), timeout, cost, watched
        self.entry = self.now = entry
        self.first = self.returned = None
        self.waits = 0
        self.result = self.error = None
        self.over = False

    def reading(self):
        self.now += self.cost
        return self.now

    def select(self, r, w, x, timeout=None):
        E = self.H.expect
        self.waits += 1
        if self.waits > 50:
            raise Endless
        E(not self.over, 'it waited again after it was over', self.inp)
        E(set(r) == set(self.watched), 'it waited for %r instead of %r' % (sorted(map(repr, r)), sorted(map(repr, self.watched))), self.inp)
        E(not list(w) and not list(x), 'it waited for other events', self.inp)
        E((timeout is None) == (self.timeout is None), 'it waited with the limit %r' % timeout, self.inp)
        if self.first is None:
            self.first = self.returned = self.now
            hi = self.timeout
        elif self.timeout is not None:
            hi = self.first + self.timeout - self.returned
        if timeout is not None and self.timeout is not None:
            lo = self.entry + self.timeout - self.now
            E(lo <= timeout <= hi and timeout >= 0, 'wait %d was for %r with between %r and %r left' % (self.waits, timeout, lo, hi), self.inp)
        what, passed = self.script.pop(0) if self.script else ('ready', 0)
        if what == 'timeout':
            if timeout is None:
                what = 'ready'
            else:
                passed = max(timeout, 0)
        elif timeout is not None:
            passed = min(passed, timeout + .25)      # a wait may end late
        self.now += passed
        self.returned = self.now
        if what == 'eintr':
            raise select.error(errno.EINTR, 'interrupted')
        if what == 'value':
            raise ValueError('filedescriptor cannot be a negative integer (-1)')
        self.over = True
        if what == 'error':
            self.error = select.error(ERRORS[len(repr(self.inp)) % len(ERRORS)], 'bad')
            raise self.error
        self.result = [] if what == 'timeout' else list(self.watched)[:1 + len(self.script) % 2]
        return self.result, [], []


def wait_case(H, script, timeout, cost, listening):
    inp = dict(script=script, timeout=timeout, reading_costs=cost, listening=listening)
    H.case(inp)
    a, b, l = Sock('a'), Sock('b'), Sock('listener')
    s = server(l if listening else None, [a, b])
    w = World(H, inp, script, timeout, cost, [a, b] + [l] * listening)
    FAKE['select'] = w.select
    for n in ('time', 'monotonic', 'perf_counter'):
        FAKE[n] = w.reading
    try:
        try:
            r = s.select_sockets() if timeout is None else s.select_sockets(timeout)
        finally:
            FAKE.clear()
    except Endless:
        return H.fail('it waits forever', inp)
    except Exception as e:
        return H.expect(e is w.error, 'raised %s: %s' % (type(e).__name__, e), inp)
    H.expect(w.error is None, 'an error was swallowed', inp)
    H.expect(w.waits > 0, 'it did not wait', inp)
    if w.over and w.error is None:
        H.equal(list(r), w.result, 'the ready sockets', inp)
    else:
        H.equal(list(r), [], 'what it returned without anything being ready', inp)
        H.expect(timeout is not None and w.now >= w.entry + timeout, 'it gave up %r early' % (timeout is not None and w.entry + timeout - w.now), inp)


def waits(H):
    out = [('ready', 0), ('ready', 1), ('error', 0), ('timeout', 0)]
    retry = [(k, t) for k in ('eintr', 'value') for t in (0, .5, 1)]
    for n in range(4 if H.thorough else 3):
        for pre in itertools.product(retry, repeat=n):
            for last in out:
                for timeout in (None, 0, 1, 2.5):
                    for cost in (0, .125) if n < 3 else (0,):
                        for listening in (True, False) if n < 2 else (True,):
                            wait_case(H, list(pre) + [last], timeout, cost, listening)
            if len(H.failures) >= 10 or not H.time_left():
                return


def long_waits(H):
    for _ in range(600 if H.thorough else 150):
        n = H.rng.randint(3, 12)
        script = [(H.rng.choice(['eintr', 'value']), H.rng.randint(0, 8) / 8.) for _ in range(n)]
        script.append((H.rng.choice(['ready', 'ready', 'timeout', 'error']), H.rng.randint(0, 8) / 8.))
        wait_case(H, script, H.rng.choice([None, 0, .25, 1, 3, 8, 64]), H.rng.choice([0, 0, 1 / 64., .5]), H.rng.random() < .8)


def dispatch_case(H, hows, timeout, repeat=1):
    inp = dict(ready=hows, timeout=timeout, times=repeat)
    H.case(inp)
    accepts, new = [], []
    listener = Sock('listener', 'listener', accepts)
    idle = Sock('idle')
    socks = [Sock('c%d' % i + 'x' * (i + len(hows)), h) for i, h in enumerate(hows)]
    ready = [listener if h == 'listener' else s for s, h in zip(socks, hows)]
    clients = [s for s in ready if s is not listener]
    for r in ready:
        if r is listener:
            accepts.append(Sock('new%d' % len(accepts)))
    new.extend(accepts)
    s = server(listener, clients + [idle])
    asked = []

    def sel(r, w, x, t=None):
        asked.append(t)
        if len(asked) > 1:
            raise Endless
        return list(ready), [], []
    FAKE['select'] = sel
    fails = [h for h in hows if h == 'fails']
    upto = hows.index('fails') if fails else len(hows)
    try:
        try:
            s.dispatch_sockets() if timeout is None else s.dispatch_sockets(timeout)
        finally:
            FAKE.clear()
        H.expect(not fails, 'an error was swallowed', inp)
    except Endless:
        return H.fail('it waited again', inp)
    except Exception as e:
        H.expect(fails and getattr(e, 'errno', None) in FAILS, 'raised %s: %s' % (type(e).__name__, e), inp)
    H.equal(asked, [timeout], 'limits of the waits', inp)
    for r, h in list(zip(ready, hows))[:upto]:
        if r is not listener:
            H.expect(r not in s.clients and r.closed, '%r is still a client' % r, inp)
    n = len([h for h in hows[:upto] if h == 'listener'])
    for i, c in enumerate(new[:n]):
        H.expect(c in s.clients, 'the accepted %r is not a client' % c, inp)
        H.expect(len(c.sent) >= 1 and not c.closed, 'the accepted %r was not greeted' % c, inp)
    if not fails:
        H.equal(len(accepts), 0, 'connections not accepted', inp)
    H.expect(idle in s.clients and not idle.closed and not idle.received and not idle.sent, 'a socket which was not ready was touched', inp)
    H.expect(not listener.closed and not listener.received, 'the listener was touched', inp)


def dispatches(H):
    for n in range(4):
        for hows in itertools.product(['listener', 'data', 'end', 'reset', 'fails'], repeat=n):
            for timeout in (None, 0, 1.5):
                dispatch_case(H, list(hows), timeout)
            if len(H.failures) >= 10:
                return


def serves(H):
    """one round after the other until an error, which is passed on"""
    for rounds in itertools.product(['listener', 'data', 'reset', 'none'], repeat=3):
        for code in (errno.EBADF, errno.ENOTSOCK):
            inp = dict(rounds=rounds, error=code)
            H.case(inp)
            accepts, asked = [], []
            listener = Sock('listener', 'listener', accepts)
            socks = [Sock('c%d' % i, h) for i, h in enumerate(rounds)]
            ready = [[] if h == 'none' else [listener if h == 'listener' else c] for c, h in zip(socks, rounds)]
            accepts.extend(Sock('new%d' % i) for i, h in enumerate(rounds) if h == 'listener')
            new = list(accepts)
            s = server(listener, [c for c, h in zip(socks, rounds) if h in ('data', 'reset')])
            error = select.error(code, 'bad')

            def sel(r, w, x, t=None):
                asked.append(t)
                if len(asked) > len(ready) + 1:
                    raise Endless
                if len(asked) > len(ready):
                    raise error
                return ready[len(asked) - 1], [], []
            FAKE['select'] = sel
            try:
                try:
                    s.serve_forever()
                finally:
                    FAKE.clear()
                H.fail('it stopped serving', inp)
            except Endless:
                H.fail('an error was swallowed', inp)
            except Exception as e:
                H.expect(e is error, 'raised %s: %s' % (type(e).__name__, e), inp)
            H.equal(asked, [None] * 4, 'limits of the waits', inp)
            H.expect(s.clients == set(new), 'the clients are %r instead of %r' % (s.clients, new), inp)


def real_sockets(H):
    """a listener, and clients which do something or not"""
    import struct
    l = socket.socket()
    l.bind(('127.0.0.1', 0))
    l.listen(8)
    s = server(l)
    peers = []

    def connect():
        c = socket.create_connection(l.getsockname())
        n = len(s.clients)
        s.dispatch_sockets(2)
        H.expect(len(s.clients) == n + 1, 'a connection was not accepted', 'real sockets')
        peers.append(c)
        return c
    for how in ('send', 'close', 'reset', 'send', 'reset', 'close'):
        H.case('real client: ' + how)
        for _ in range(2):
            connect()
        t = time.time()
        s.dispatch_sockets(.02)
        H.expect(time.time() - t >= .015, 'it did not wait', how)
        n = len(s.clients)
        c = peers.pop(0)
        mine = c.getsockname()
        if how == 'send':
            c.sendall(b'hello')
        elif how == 'close':
            c.shutdown(socket.SHUT_RDWR)
            c.close()
        else:
            c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            c.close()
        ok, _ = H.attempt('dispatching', how, s.dispatch_sockets, 2)
        H.expect(len(s.clients) == n - 1, 'the client which did %r is still there' % how, how)
        left = set(x.getpeername() for x in s.clients if x.fileno() >= 0)
        H.expect(mine not in left and len(left) == n - 1, 'another client was disconnected', how)
    for x in peers + list(s.clients) + [l]:
        x.close()


SECTIONS = [waits, dispatches, serves, long_waits, real_sockets]
