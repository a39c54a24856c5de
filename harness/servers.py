"""A profiling server over recorded connections, with an oracle of what every client must have received."""
import errno
import io
import pickle
import socket
from profiling import remote
from profiling.remote import ProfilingServer, pack_msg, WELCOME, PROFILER, RESULT
from profiling.__about__ import __version__


class Prof(object):
    """A profiler which counts."""
    value = 0

    def __init__(self):
        self.running = False
        self.starts = self.stops = self.results = 0

    def start(self):
        if self.running:
            raise RuntimeError('already')
        self.running = True
        self.starts += 1

    def stop(self):
        if not self.running:
            raise RuntimeError('not running')
        self.running = False
        self.stops += 1

    def is_running(self):
        return self.running

    def result(self):
        if self.running:
            raise AssertionError('result of a running profiler')
        self.results += 1
        return ('result', self.results, 'x' * (self.results * 37 % 5000))


class Wrap(object):
    def __init__(self, p):
        self.profiler = p

    def start(self):
        self.profiler.start()

    def stop(self):
        self.profiler.stop()

    def is_running(self):
        return self.profiler.is_running()

    def result(self):
        return self.profiler.result()


class Conn(object):
    def __init__(self, n, fail_at=None, report=False):
        self.n = n
        self.got = []         # the byte strings sent
        self.fail_at = fail_at    # index of the send which fails
        self.report = report  # the failure is also reported as a disconnection, in the meantime
        self.broken = False
        self.closes = 0
        self.sends = 0
        self.after = []       # sent after a failure or a close
        self.watched = 0
        self.again = n % 2      # reported gone again while it is being closed
        self.during = None

    def __repr__(self):
        return '<client %d>' % self.n


class Fake(ProfilingServer):
    def __init__(self, *a, **k):
        ProfilingServer.__init__(self, *a, **k)
        self.loop = None
        self.starts = 0
        self.problems = []

    def serve_forever(self):
        pass

    def _send(self, c, data):
        if c.broken or c.closes:
            c.after.append(data)
            if c.closes:
                raise socket.error(errno.EBADF, 'closed')
        n = c.sends
        c.sends += 1
        if c.during is not None:
            f, c.during = c.during, None
            f(data)
        if c.fail_at == n:
            c.broken = True
            c.got.append(bytes(data[:len(data) // 2]))
            if c.report:
                self.disconnected(c)
            raise socket.error(errno.EAGAIN if c.n % 2 else errno.EPIPE, 'broken')
        c.got.append(bytes(data))

    def _close(self, c):
        c.closes += 1
        if c.closes < 5 and c.again:
            self.disconnected(c)    # reported once more

    def _addr(self, c):
        return [None, ('127.0.0.1', 4321), 'a socket file'][c.n % 3]

    def _start_watching(self, c):
        c.watched += 1

    def _start_profiling(self):
        self.starts += 1
        if self.loop is not None:
            self.problems.append('a second loop is started')
            return
        self.loop = self.profiling()
        self.step()

    def step(self):
        try:
            next(self.loop)
        except StopIteration:
            self.loop = None
            return False
        return True


def greeting(server, inner, latest):
    p = server.pickle_protocol
    out = [pack_msg(WELCOME, (p, __version__), 0), pack_msg(PROFILER, type(inner), p)]
    return out + ([latest] if latest is not None else [])


class History(object):
    """Applies events to a fake server and follows what must happen."""

    def __init__(self, H, inp, depth=0, protocol=2):
        self.H, self.inp = H, inp
        self.inner = p = Prof()
        for _ in range(depth):
            p = Wrap(p)
        self.server = Fake(p, interval=1, log=lambda *a: None, pickle_protocol=protocol)
        self.protocol = protocol
        self.clients = []        # all there ever were
        self.here = []           # those which must be managed
        self.want = {}
        self.latest = None
        self.cycles = 0
        self.ok = True

    def expect(self, cond, what):
        if not cond:
            self.ok = False
            self.H.fail(what, self.inp())
        return cond

    def guarded(self, what, fn, *a):
        try:
            fn(*a)
        except Exception as e:
            self.expect(False, '%s: raised %s: %s' % (what, type(e).__name__, e))

    def connect(self, fail_at=None, report=False):
        c = Conn(len(self.clients), fail_at, report)
        self.clients.append(c)
        g = greeting(self.server, self.inner, self.latest)
        starts, first = self.server.starts, not self.here and self.server.loop is None
        fails = fail_at is not None and fail_at < len(g)
        self.guarded('connected', self.server.connected, c)
        if fails:
            self.want[c] = g[:fail_at] + [g[fail_at][:len(g[fail_at]) // 2]]
            self.expect(self.server.starts == starts, 'profiling is started for a client which is gone')
        else:
            self.want[c] = g
            self.here.append(c)
            self.expect(self.server.starts - starts == (1 if first else 0),
                        'profiling started %d times for client number %d' % (self.server.starts - starts, len(self.here)))
        self.check('after connected')

    def disconnect(self, i):
        c = self.clients[i]
        self.guarded('disconnected', self.server.disconnected, c)
        if c in self.here:
            self.here.remove(c)
        self.check('after disconnected')

    def step(self):
        """The interval ends."""
        s = self.server
        if s.loop is None:
            return
        r0 = self.inner.results
        here = list(self.here)
        res = []

        def go():
            res.append(s.step())
        self.guarded('a cycle', go)
        self.cycles += 1
        self.expect(self.inner.results == r0 + 1, '%d results in a cycle' % (self.inner.results - r0))
        data = pack_msg(RESULT, ('result', self.inner.results, 'x' * (self.inner.results * 37 % 5000)), self.protocol)
        self.latest = data
        for c in here:
            n = len(self.want[c])
            if c.fail_at is not None and c.fail_at == n:
                self.want[c].append(data[:len(data) // 2])
                self.here.remove(c)
            else:
                self.want[c].append(data)
        if res and self.here:
            self.expect(res[0], 'profiling ended although there are clients')
            self.expect(self.inner.running, 'the profiler does not run during the interval')
        elif res:
            self.expect(not res[0], 'profiling goes on without clients')
            self.expect(not self.inner.running, 'the profiler runs after profiling has ended')
        self.check('after a cycle')

    def start_profiler(self):
        if not self.inner.running:
            self.inner.start()

    def stop_profiler(self):
        if self.inner.running:
            self.inner.stop()

    def check(self, when):
        s = self.server
        for p in s.problems:
            self.expect(False, p)
        del s.problems[:]
        self.expect(set(s.clients) == set(self.here), '%s: clients are %r, should be %r' % (when, sorted(s.clients, key=repr), self.here))
        for c in self.clients:
            w = self.want.get(c)
            if w is None:
                continue
            if not self.expect(c.got == w, '%s: %r got %s, should have %s' % (when, c, short(c.got), short(w))):
                return
            self.expect(not c.after, '%s: %r is sent something after it broke or was closed' % (when, c))
            gone = c not in self.here
            self.expect(c.closes == (1 if gone else 0), '%s: %r closed %d times' % (when, c, c.closes))


def short(datas):
    out = []
    for d in datas:
        try:
            out.append((d[0], repr(pickle.loads(d[5:]))[:40]))
        except Exception:
            out.append('%d bytes' % len(d))
    return out
