"""C20: clients."""
import errno
import itertools
import os
import pickle
import shutil
import socket
import struct
import tempfile
import time
from profiling import remote
from profiling.remote import client as client_module
from profiling.remote import pack_msg, WELCOME, PROFILER, RESULT
from profiling.remote.client import ProfilingClient, FailoverProfilingClient
from profiling.tracing import TracingProfiler
from profiling.sampling import SamplingProfiler

RULE = ('messages of every kind (all 256 method numbers, several titles) cut into pieces, to plain and fail-over clients; fail-over '
        'histories of connection results and breaks, exhaustive up to 4 events and random up to 30, over recorded sockets; real '
        'TCP and unix sockets which appear, refuse and vanish, with one alarm at a time; distinct = different histories')


class Viewer(object):
    def __init__(self):
        self.calls = []

    def activate(self):
        self.calls.append(('activate',))

    def inactivate(self):
        self.calls.append(('inactivate',))

    def set_profiler_class(self, c):
        self.calls.append(('class', c))

    def set_result(self, stats, cpu_time, wall_time, title=None, at=None):
        self.calls.append(('result', stats, cpu_time, wall_time, title, at))


class Loop(object):
    def __init__(self):
        self.watched = {}
        self.alarms = []
        self.problems = []

    def watch_file(self, fd, callback):
        if fd in self.watched:
            self.problems.append('%r is watched twice' % fd)
        self.watched[fd] = callback
        return fd

    def remove_watch_file(self, fd):
        if fd not in self.watched:
            self.problems.append('%r was not watched' % fd)
            return False
        del self.watched[fd]
        return True

    def alarm(self, delay, callback):
        self.alarms.append((delay, callback))
        return self.alarms[-1]


class Sock(object):
    """connects by the script; then holds bytes"""
    script = []
    made = []

    def __init__(self, family=socket.AF_INET, *args):
        self.family = family
        self.blocking = True
        self.closed = 0
        self.data = b''
        self.end = None
        self.connects = []
        self.fd = 100 + len(Sock.made)
        self.pieces = 1 << 30
        Sock.made.append(self)

    def fileno(self):
        return -1 if self.closed else self.fd

    def setblocking(self, flag):
        self.blocking = bool(flag)

    def settimeout(self, t):
        self.blocking = t != 0

    def connect_ex(self, addr):
        self.connects.append(addr)
        return Sock.script.pop(0)

    def recv(self, n, flags=0):
        if not self.data:
            if self.end is None or self.end == 0:
                return b''
            raise socket.error(self.end, 'broken')
        n = min(n, self.pieces)
        r, self.data = self.data[:n], self.data[n:]
        return r

    def close(self):
        self.closed += 1


class Stats(object):
    def __eq__(self, o):
        return isinstance(o, Stats)


def shows(H, c, v, sock, method, msg, title, inp, fn=None):
    """handle one message"""
    sock.data = pack_msg(method, msg)
    del v.calls[:]
    a = client_module.datetime.now()
    ok, _ = H.attempt('handle', inp, fn or c.handle)
    b = client_module.datetime.now()
    if not ok:
        return False
    if method == WELCOME:
        want = [('activate',)]
    elif method == PROFILER:
        want = [('class', msg)]
    elif method == RESULT:
        if not H.equal([x[:-1] for x in v.calls], [('result',) + msg + (title,)], 'shown', inp):
            return False
        return H.expect(v.calls[0][-1] is not None and a <= v.calls[0][-1] <= b, 'the time of the result', inp)
    else:
        want = []
    return H.equal(v.calls, want, 'shown', inp) and H.equal(sock.data, b'', 'left over', inp)


def messages(H):
    for method in range(256):
        for title in (None, 'title', ''):
            for msg in ((TracingProfiler, SamplingProfiler) if method == PROFILER else
                        [(Stats(), 1.5, 2.5), (Stats(), 0, 0.0)] if method == RESULT else [None, (1, 'x'), 'abc']):
                inp = (method, title, repr(msg)[:50])
                H.case(inp)
                v, l = Viewer(), Loop()
                s = Sock()
                s.pieces = H.rng.choice([1, 3, 1 << 30])
                c = ProfilingClient(v, l, s, title)
                c.start()
                H.equal(list(l.watched), [s.fd], 'watched', inp)
                if not shows(H, c, v, s, method, msg, title, inp, l.watched[s.fd]):
                    return
                H.equal(list(l.watched), [s.fd], 'watched afterwards', inp)


def breaks(H):
    """every part of a message may be missing"""
    data = pack_msg(RESULT, (Stats(), 1, 2))
    for n in range(len(data)):
        for end in (0, errno.ECONNRESET, errno.ETIMEDOUT, errno.ECONNREFUSED, errno.ENOENT):
            for before in range(3):
                inp = (n, end, before)
                H.case(inp)
                v, l = Viewer(), Loop()
                s = Sock()
                c = ProfilingClient(v, l, s, 'x')
                c.start()
                for _ in range(before):
                    shows(H, c, v, s, WELCOME, 'x', 'x', inp)
                del v.calls[:]
                s.data, s.end = data[:n], end
                ok, _ = H.attempt('handle', inp, c.handle)
                if not ok:
                    return
                if not (H.equal(v.calls, [('inactivate',)], 'told to the viewer', inp) and
                        H.equal(list(l.watched), [], 'still watched', inp) and H.equal(l.problems, [], 'problems', inp)):
                    return
                H.equal(l.alarms, [], 'alarms', inp)


ADDR = ('host', 1234)
NOBODY = (errno.ECONNREFUSED, errno.ENOENT)


def history(H, ops, family=socket.AF_INET, interval=None):
    """ops: ('connect', errno) | ('msg', method) | ('break', errno)"""
    inp = (ops, int(family), interval)
    H.case(inp)
    Sock.made, Sock.script = [], []
    old = client_module.socket.socket
    client_module.socket.socket = Sock
    try:
        v, l = Viewer(), Loop()
        c = FailoverProfilingClient(v, l, ADDR, family, 'title')
        if interval is not None:
            c.failover_interval = interval
        gap = c.failover_interval
        ok, _ = H.attempt('start', inp, c.start)
        if not ok:
            return False
        delay = 0
        for i, op in enumerate(ops):
            where = 'event %d: ' % i
            made = len(Sock.made)
            s = Sock.made[-1] if Sock.made else None
            if not (H.expect(s is not None and c.sock is s, where + 'the current socket', inp) and
                    H.expect(not s.blocking and not s.closed, where + 'a blocking or closed socket', inp) and
                    H.equal(s.family, family, where + 'family', inp)):
                return False
            H.equal([x.fd for x in Sock.made[:-1] if x.fd in l.watched], [], where + 'old sockets are watched', inp)
            if op[0] == 'connect':
                if not H.equal(len(l.alarms), 1, where + 'alarms', inp):
                    return False
                if not H.equal(l.alarms[0][0], delay, where + 'delay', inp):
                    return False
                if not H.expect(not l.watched, where + 'watched before it is connected', inp):
                    return False
                Sock.script = [op[1]]
                _, fn = l.alarms.pop()
                try:
                    fn()
                except ValueError as e:
                    return H.expect(op[1] not in NOBODY + (0, errno.EINPROGRESS), where + 'raised %r' % e, inp)
                except Exception as e:
                    H.fail(where + 'raised %r' % e, inp)
                    return False
                if not H.equal(s.connects, [ADDR], where + 'connects', inp):
                    return False
                if op[1] in NOBODY:
                    delay = gap
                    if not (H.equal(len(Sock.made), made + 1, where + 'sockets made', inp) and
                            H.equal(len(l.alarms), 1, where + 'alarms', inp)):
                        return False
                else:
                    if not (H.equal(list(l.watched), [s.fd], where + 'watched', inp) and
                            H.equal(len(l.alarms), 0, where + 'alarms', inp)):
                        return False
            elif op[0] == 'msg':
                if not shows(H, c, v, s, op[1], {RESULT: (Stats(), 1, 2), PROFILER: TracingProfiler}.get(op[1]), 'title', inp, l.watched[s.fd]):
                    return False
                if not (H.equal(list(l.watched), [s.fd], where + 'watched', inp) and
                        H.equal(len(Sock.made), made, where + 'sockets made', inp)):
                    return False
            else:
                del v.calls[:]
                s.data, s.end = b'', op[1]
                ok, _ = H.attempt(where + 'handle', inp, l.watched[s.fd])
                if not ok:
                    return False
                delay = gap if op[1] == errno.ECONNREFUSED else 0
                if not (H.equal(v.calls, [('inactivate',)], where + 'told to the viewer', inp) and
                        H.equal(l.watched, {}, where + 'still watched', inp) and
                        H.equal(s.closed, 1, where + 'closed', inp) and
                        H.equal(len(Sock.made), made + 1, where + 'sockets made', inp)):
                    return False
            if not H.equal(l.problems, [], where + 'problems', inp):
                return False
        if l.alarms:
            H.equal([x[0] for x in l.alarms], [delay], 'last delay', inp)
        return not H.failures
    except Exception as e:
        H.fail('raised %r' % e, inp)
        return False
    finally:
        client_module.socket.socket = old


CONNECT = [('connect', e) for e in (0, errno.EINPROGRESS, errno.ENOENT, errno.ECONNREFUSED)]
BREAK = [('break', e) for e in (0, errno.ECONNREFUSED, errno.ECONNRESET, errno.ENOENT, errno.ETIMEDOUT)]
MSG = [('msg', m) for m in (WELCOME, PROFILER, RESULT, 0, 0x13)]


def sequences(n, connected=False):
    if n == 0:
        yield []
        return
    for op in (MSG + BREAK if connected else CONNECT):
        now = op[0] == 'msg' or op[0] == 'connect' and op[1] not in NOBODY
        for rest in sequences(n - 1, now):
            yield [op] + rest


def failover(H):
    for n in range(1, 5):
        for ops in sequences(n):
            if not H.time_left() or not history(H, ops):
                return


def options(H):
    for family in (socket.AF_INET, socket.AF_INET6, socket.AF_UNIX):
        for interval in (None, 0, .5, 7):
            for ops in sequences(3):
                if not history(H, ops, family, interval):
                    return
    for e in (errno.EHOSTUNREACH, errno.EACCES, errno.ETIMEDOUT):
        history(H, [('connect', errno.ECONNREFUSED), ('connect', e)])


def randomly(H):
    for _ in range(3000 if H.thorough else 400):
        ops, connected = [], False
        for _ in range(H.rng.randint(5, 30)):
            op = H.rng.choice(MSG * 3 + BREAK if connected else CONNECT)
            connected = op[0] == 'msg' or op[0] == 'connect' and op[1] not in NOBODY
            ops.append(op)
        if not H.time_left() or not history(H, ops):
            return


def custom(H):
    """another protocol"""
    for method in (0x10, 0x11, 0x12, 0x55):
        inp = 'custom protocol, method %d' % method
        H.case(inp)
        seen = []
        v, l, s = Viewer(), Loop(), Sock()
        c = ProfilingClient(v, l, s, 't', protocol=lambda *a: seen.append(a))
        c.start()
        s.data = pack_msg(method, ('a', method))
        H.attempt('handle', inp, c.handle)
        H.expect(seen == [(method, ('a', method), c)] and not v.calls, 'the protocol is not used', inp)
        seen = []
        c = FailoverProfilingClient(v, l, ADDR, title='t', protocol=lambda *a: seen.append(a))
        c.sock = s
        s.data = pack_msg(method, ('a', method))
        H.attempt('handle', inp, c.handle)
        H.expect(seen == [(method, ('a', method), c)] and not v.calls, 'the protocol is not used by a fail-over client', inp)


def real(H):
    """listeners which come and go"""
    d = tempfile.mkdtemp(dir=os.environ.get('HARNESS_TMP'))
    try:
        for family in (socket.AF_INET, socket.AF_UNIX):
            inp = 'real sockets of family %d' % family
            H.case(inp)
            if family == socket.AF_INET:
                x = socket.socket()
                x.bind(('127.0.0.1', 0))
                addr = x.getsockname()
                x.close()
            else:
                addr = os.path.join(d, 'sock')
            v, l = Viewer(), Loop()
            c = FailoverProfilingClient(v, l, addr, family, 'real')
            c.failover_interval = .02
            c.start()
            for rounds in range(2):
                for _ in range(3):
                    if not H.equal(len(l.alarms), 1, 'alarms', inp):
                        return
                    delay, fn = l.alarms.pop()
                    fn()
                    if l.watched:      # in progress: refused later
                        end = time.time() + 5
                        while not l.alarms and time.time() < end:
                            list(l.watched.values())[0]()
                listener = socket.socket(family)
                listener.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                listener.bind(addr)
                listener.listen(1)
                l.alarms.pop()[1]()
                if not H.equal(len(l.watched), 1, 'watched', inp):
                    return
                s, _ = listener.accept()
                del v.calls[:]
                for part in (pack_msg(WELCOME, 'x') + pack_msg(PROFILER, TracingProfiler), pack_msg(RESULT, (Stats(), 1, 2))):
                    s.sendall(part)
                for _ in range(3):
                    list(l.watched.values())[0]()
                H.equal([x[0] for x in v.calls], ['activate', 'class', 'result'], 'shown', inp)
                s.sendall(pack_msg(RESULT, (Stats(), 1, 2))[:20 * rounds])
                s.close()
                listener.close()
                if family == socket.AF_UNIX:
                    os.unlink(addr)
                list(l.watched.values())[0]()
                H.equal(v.calls[3:], [('inactivate',)], 'told at the end', inp)
                H.equal([x[0] for x in l.alarms], [0], 'delay', inp)
    finally:
        shutil.rmtree(d, ignore_errors=True)


SECTIONS = [messages, breaks, failover, options, randomly, custom, real]
