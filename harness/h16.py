"""C16: messages over byte streams cut into pieces."""
import errno
import os
import pickle
import socket
import threading
import time
from profiling import remote
from profiling.remote import pack_msg as real_pack, recv_msg

RULE = ('sequences of messages (all method bytes, plain and nested values, statistics, sizes from 0 to 16 MiB, every pickle '
        'protocol) over streams cut at every position, byte by byte, at random, with waits, and ended or broken at every '
        'position; scripted sockets and real socket pairs; distinct = different messages, cuts and faults')

R, W_ = os.pipe()
os.write(W_, b'x')      # always readable


class Wire(object):
    """A socket over given pieces; None means nothing there yet, an int is an error."""

    def __init__(self, pieces, after=b''):
        self.pieces = list(pieces)
        self.after = after      # further bytes
        self.consumed = 0
        self.reads = 0

    def fileno(self):
        return R

    def recv(self, size, flags=0):
        self.reads += 1
        if self.reads > 100000:
            raise RuntimeError('reads forever')
        if not self.pieces:
            return b''
        p = self.pieces[0]
        if p is None:
            self.pieces.pop(0)
            raise socket.error(errno.EAGAIN, 'again')
        if isinstance(p, int):
            raise socket.error(p, 'failed')
        got, rest = p[:size], p[size:]
        if rest:
            self.pieces[0] = rest
        else:
            self.pieces.pop(0)
        self.consumed += len(got)
        return bytes(got)

    def recv_into(self, buf, nbytes=0, flags=0):
        got = self.recv(nbytes or len(buf), flags)
        buf[:len(got)] = got
        return len(got)

    def gettimeout(self):
        return None

    def setblocking(self, f):
        pass


MESSAGES = [(0x10, (2, '0.1')), (0x11, dict), (0x12, (None, 0.0, 1.5)), (0, None), (255, b''), (1, b'\0' * 300), (2, 'x' * 70000),
            (7, [1, 2, (3, {'a': [b'\xff\n']})]), (0x12, float('inf')), (13, u'\u2603' * 5), (10, list(range(400))), (0x80, ())]


FAILED = [None]


def pack_msg(*args):
    try:
        return real_pack(*args)
    except Exception as e:
        FAILED[0]('packing raised %s: %s' % (type(e).__name__, e), args)
        raise


def check(H, inp, sock, want, total):
    for n, (m, v) in enumerate(want):
        ok, r = H.attempt('receiving message %d' % n, inp, recv_msg, sock)
        if not ok:
            return False
        if not H.equal(tuple(r), (m, v), 'message %d' % n, inp):
            return False
    return H.equal(sock.consumed, total, 'bytes consumed', inp)


def cuts(data, at):
    at = [0] + sorted(at) + [len(data)]
    return [data[a:b] for a, b in zip(at, at[1:]) if a < b]


def short(msgs):
    return [(m, repr(v)[:60]) for m, v in msgs]


def every_cut(H):
    FAILED[0] = H.fail
    for proto in range(pickle.HIGHEST_PROTOCOL + 1):
        for m, v in MESSAGES:
            data = pack_msg(m, v, proto)
            n = len(data)
            places = range(1, n) if n < 500 else list(range(1, 12)) + [n // 2, n - 1] + [65535, 65536, 65537]
            for c in places:
                if c >= n:
                    continue
                inp = dict(method=m, message=repr(v)[:60], protocol=proto, cut=c)
                H.case(inp)
                check(H, inp, Wire(cuts(data, [c]) + [b'rest of the stream']), [(m, v)], n)
                w = Wire([None] + [p for q in cuts(data, [c]) for p in (q, None)])
                check(H, dict(inp, waits=True), w, [(m, v)], n)


def byte_by_byte(H):
    for m, v in MESSAGES:
        data = pack_msg(m, v)
        if len(data) > 5000:
            continue
        inp = dict(method=m, message=repr(v)[:60])
        H.case(inp)
        check(H, inp, Wire([data[i:i + 1] for i in range(len(data))]), [(m, v)], len(data))


def all_methods(H):
    FAILED[0] = H.fail
    for m in range(256):
        data = pack_msg(m, m)
        H.case(m)
        check(H, m, Wire([data]), [(m, m)], len(data))


def sizes(H):
    """messages whose packed size is around every power of two up to 32 MiB"""
    over = len(pack_msg(1, b'x' * 70000)) - 5 - 70000
    for k in range(8, 26 if H.thorough else 25):
        for d in (-1, 0, 1) if k < 22 else (0,):
            v = b'x' * (2 ** k + d - over)
            data = pack_msg(k, v)
            inp = dict(method=k, message='%d bytes' % len(v), packed=len(data))
            H.case(inp)
            n = len(data)
            if not check(H, inp, Wire(cuts(data, [n // 3, n // 2]) + [b'more']), [(k, v)], n):
                return


def sequences(H):
    for _ in range(1500 if H.thorough else 250):
        msgs = [(H.rng.randrange(256), H.rng.choice(MESSAGES)[1]) for _ in range(H.rng.randint(1, 6))]
        protos = [H.rng.randint(0, pickle.HIGHEST_PROTOCOL) for _ in msgs]
        datas = [pack_msg(m, v, p) for (m, v), p in zip(msgs, protos)]
        data = b''.join(datas)
        at = [H.rng.randrange(len(data)) for _ in range(H.rng.choice([0, 1, 3, 10, 50]))]
        pieces = []
        for p in cuts(data, at):
            pieces += [None] * (H.rng.random() < .2) + [p]
        inp = dict(messages=short(msgs), cuts=sorted(at)[:20], protocols=protos)
        H.case(inp)
        if not check(H, inp, Wire(pieces), msgs, len(data)):
            return


def ends_inside(H):
    for m, v in MESSAGES:
        data = pack_msg(m, v)
        n = len(data)
        for c in (range(n) if n < 500 else [0, 1, 2, 4, 5, 6, n // 2, n - 1]):
            for pieces in (cuts(data[:c], []), [data[i:i + 1] for i in range(c)] if c < 500 else [data[:c]],
                           cuts(data[:c], [c // 2]) + [None]):
                for fault in (None, errno.ECONNRESET, errno.ETIMEDOUT):
                    inp = dict(method=m, message=repr(v)[:60], ends_at=c, of=n, pieces=len(pieces), fault=fault)
                    H.case(inp)
                    w = Wire(list(pieces) + ([fault] if fault else []))
                    try:
                        r = recv_msg(w)
                    except socket.error as e:
                        if fault:
                            H.equal(e.errno, fault, 'error number', inp)
                        else:
                            H.expect(isinstance(e, ConnectionError), 'not a connection error: %r' % e, inp)
                        continue
                    except Exception as e:
                        H.fail('raised %s: %s' % (type(e).__name__, e), inp)
                        continue
                    H.fail('returned %r' % (r,), inp)


def after_a_message(H):
    """the stream ends inside a later message: the earlier ones are received"""
    for k in range(3):
        msgs = MESSAGES[k:k + 3]
        datas = [pack_msg(m, v) for m, v in msgs]
        data = b''.join(datas)
        for c in range(0, min(len(data), 600), 3):
            inp = dict(messages=short(msgs), ends_at=c)
            H.case(inp)
            w = Wire([data[:c]])
            want = 0
            while sum(map(len, datas[:want + 1])) <= c:
                want += 1
            got = []
            try:
                while True:
                    got.append(tuple(recv_msg(w)))
            except socket.error:
                pass
            except Exception as e:
                H.fail('raised %s: %s' % (type(e).__name__, e), inp)
            H.equal(got, [tuple(x) for x in msgs[:want]], 'messages before the end', inp)


def real_sockets(H):
    for n in range(30 if H.thorough else 8):
        a, b = socket.socketpair()
        msgs = [(H.rng.randrange(256), H.rng.choice(MESSAGES)[1]) for _ in range(6)] + [(3, b'y' * 300000)]
        data = b''.join(pack_msg(m, v) for m, v in msgs)
        blocking = n % 2 == 0
        inp = dict(messages=short(msgs), blocking=blocking)
        H.case(inp)
        seed = H.rng.random()

        def write():
            import random
            rng = random.Random(seed)
            i = 0
            while i < len(data):
                k = rng.choice([1, 3, 100, 5000, 50000])
                a.sendall(data[i:i + k])
                i += k
                if rng.random() < .2:
                    time.sleep(.001)
            a.close()
        b.settimeout(10 if blocking else None)
        if blocking:
            b.settimeout(10)
        else:
            b.setblocking(False)
        t = threading.Thread(target=write)
        t.daemon = True
        t.start()
        for m, v in msgs:
            ok, r = H.attempt('receiving', inp, recv_msg, b)
            if not ok or not H.equal(tuple(r), (m, v), 'message', inp):
                break
        else:
            try:
                r = recv_msg(b)
                H.fail('returned %r after the end' % (r,), inp)
            except socket.error:
                pass
            except Exception as e:
                H.fail('raised %s after the end' % type(e).__name__, inp)
        b.close()
        t.join(10)


SECTIONS = [all_methods, every_cut, byte_by_byte, sizes, sequences, ends_inside, after_a_message, real_sockets]
