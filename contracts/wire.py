"""Byte strings as terms: pieces of a stream, concatenations, packed numbers and pickles."""
import errno
import struct
from .common import *

slice_f = uf('stream', INT, INT, U)      # the bytes of the stream from .. to
lo_f = uf('from', U, INT)
hi_f = uf('to', U, INT)
cat_f = uf('cat', U, U, U)
blen = uf('byte length', U, INT)
pickled_f = uf('pickled', U, U, U)
unpickled_f = uf('unpickled', U, U)

BYTESIO = '''
def main():
    class BytesIO(object):
        def __init__(self, initial=b''):
            self.data = initial
            self.at = 0
        def write(self, data):
            self.data = self.data + data
            self.at = len(self.data)
            return len(data)
        def tell(self):
            return self.at
        def getvalue(self):
            return self.data
        def getbuffer(self):
            return self.data
        def close(self):
            pass
        def __enter__(self):
            return self
        def __exit__(self, *exc):
            pass
    return BytesIO
'''


def limits_of(c):
    """the numbers of a struct code"""
    bits = 8 * struct.calcsize('!' + c)
    return (0, 2 ** bits) if c.isupper() else (-2 ** (bits - 1), 2 ** (bits - 1))


class Wire(object):
    """Models of what makes, joins and reads byte strings."""

    def __init__(self, path):
        self.path = path
        I = path.interp
        I.ext_models['len'] = lambda p, a, k: SV('int', self.len(p.to_u(a[0])))
        I.ext_models['binop'] = self.binop
        I.ext_models['bytes.join'] = self.join
        I.ext_models['struct.pack'] = self.pack
        I.ext_models['struct.unpack'] = self.unpack
        I.ext_models['struct.calcsize'] = lambda p, a, k: struct.calcsize(self.fmt(a[0]))
        self.io = call(path, program(path, BYTESIO))
        I.ext_models['io.BytesIO'] = lambda p, a, k: p.interp.call(self.io, a, k)
        I.ext_models['pickle.dump'] = self.dump
        I.ext_models['pickle.dumps'] = lambda p, a, k: self.pickled(a[0], a[1] if len(a) > 1 else k.get('protocol'))
        I.ext_models['pickle.loads'] = self.loads
        self.known = []

    small = False       # every message fits into 32 bits

    def bytes(self, u):
        return SV('bytes', u)

    def slice(self, a, b):
        t = slice_f(z3.simplify(a), z3.simplify(b))
        self.path.add(z3.Implies(a <= b, z3.And(lo_f(t) == a, hi_f(t) == b, blen(t) == b - a)))
        self.path.add(z3.Implies(a == b, t == self.path.to_u(b'')))
        self.path.add(z3.Implies(a < b, t != self.path.to_u(b'')))
        return t

    def len(self, u):
        self.path.add(z3.And(blen(u) >= 0, (blen(u) == 0) == (u == self.path.to_u(b''))))
        return blen(u)

    def constant(self, v):
        u = self.path.to_u(v)
        if isinstance(v, bytes):
            self.path.add(blen(u) == len(v))
        return u

    def cat(self, x, y):
        path = self.path
        e = path.to_u(b'')
        if x.eq(e):
            return y
        if y.eq(e):
            return x
        t = cat_f(x, y)
        path.add(blen(t) == self.len(x) + self.len(y))
        path.add(z3.Implies(x == e, t == y))
        path.add(z3.Implies(y == e, t == x))
        both = slice_f(lo_f(x), hi_f(y))
        here = z3.And(x == slice_f(lo_f(x), hi_f(x)), y == slice_f(lo_f(y), hi_f(y)), hi_f(x) == lo_f(y), x != e, y != e)
        path.add(z3.Implies(here, z3.And(t == both, lo_f(t) == lo_f(x), hi_f(t) == hi_f(y))))
        return t

    def is_bytes(self, v):
        return isinstance(v, bytes) or isinstance(v, SV) and v.kind == 'bytes'

    def binop(self, I, op, a, b):
        if isinstance(op, ast.Add) and self.is_bytes(a) and self.is_bytes(b):
            return self.bytes(self.cat(self.constant(a), self.constant(b)))
        return NotImplemented

    # a joined list: no bytes yet, or the bytes from .. to as far as the pieces follow each other
    def step_lo(self, s, v):
        return z3.If(s == -2, lo_f(self.path.to_u(v)), s)

    def step_hi(self, s, v):
        u = self.path.to_u(v)
        return z3.If(s == -2, hi_f(u), z3.If(s == lo_f(u), hi_f(u), z3.IntVal(-1)))

    def ends(self, seq):
        """from, to of the pieces in a list, -2 for none"""
        none = z3.IntVal(-2)
        return (Fold('from', self.step_lo, INT).eval(self.path, none, seq), Fold('to', self.step_hi, INT).eval(self.path, none, seq))

    def join(self, path, args, kwargs):
        sep, seq = args[0], path.norm(path.interp.to_seq(args[1]))
        if sep != b'':
            raise Unsupported('joining with %r' % (sep,))
        if all(isinstance(p, Unit) for p in seq):
            t = path.to_u(b'')
            for p in seq:
                t = self.cat(t, self.constant(p.v))
            return self.bytes(t)
        a, b = self.ends(seq)
        t = path.fresh('joined', U)
        path.add(z3.Implies(path.length(seq) == 0, t == path.to_u(b'')))
        path.add(z3.Implies(z3.And(path.length(seq) > 0, b >= 0), t == self.slice(a, b)))
        return self.bytes(t)

    def fmt(self, f):
        if not isinstance(f, str):
            raise Unsupported('struct format %r' % (f,))
        return f

    def pack(self, path, args, kwargs):
        fmt, vals = self.fmt(args[0]), args[1:]
        codes = fmt.lstrip('!<>=@')
        limits = {c: limits_of(c) for c in 'bBhHiIlLqQ'}
        if len(codes) != len(vals) or any(c not in limits for c in codes):
            raise Unsupported('struct format %s' % fmt)
        ts = []
        for c, v in zip(codes, vals):
            n = num(path, v)
            if not path.decide(z3.And(n >= limits[c][0], n < limits[c][1])):
                raise path.interp.exc('struct.error', 'out of range')
            ts.append(n)
        one = self.one_by_one(fmt)
        if one is None:
            t = uf('packed ' + fmt, *([INT] * len(ts) + [U]))(*ts)
            path.add(blen(t) == struct.calcsize(fmt))
            path.add(t != path.to_u(b''))
            for i, n in enumerate(ts):
                path.add(uf('unpacked %d of %s' % (i, fmt), U, INT)(t) == n)
            return self.bytes(t)
        whole = path.to_u(b'')
        for c, n in zip(one, ts):
            t = uf('packed ' + c, INT, U)(n)
            path.add(z3.And(blen(t) == struct.calcsize(c), t != path.to_u(b''), uf('unpacked ' + c, U, INT)(t) == n))
            whole = self.cat(whole, t)
        return self.bytes(whole)

    def one_by_one(self, fmt):
        """the formats of the numbers, where they follow each other without padding"""
        if fmt[:1] in ('!', '>', '<', '='):
            order = {'>': '!', '=': '<'}.get(fmt[0], fmt[0])      # the tools run on a little-endian machine
            return [order + c for c in fmt[1:]]

    def unpack(self, path, args, kwargs):
        fmt = self.fmt(args[0])
        u = self.constant(args[1])
        codes = fmt.lstrip('!<>=@')
        if not path.decide(self.len(u) == struct.calcsize(fmt)):
            raise path.interp.exc('struct.error', 'unpack requires a buffer of %d bytes' % struct.calcsize(fmt))
        out, parts = [], self.pieces(u)
        one, lo = self.one_by_one(fmt), lo_f(u)
        for i, c in enumerate(codes):
            if one is None:
                n = uf('unpacked %d of %s' % (i, fmt), U, INT)(u)
            elif len(one) == 1:
                n = uf('unpacked ' + one[i], U, INT)(u)
            elif len(parts) == len(one) and all(path.must(blen(p) == struct.calcsize(f)) for p, f in zip(parts, one)):
                n = uf('unpacked ' + one[i], U, INT)(parts[i])
            else:
                n, hi = path.fresh('unpacked', INT), lo + struct.calcsize(one[i])
                path.add(z3.Implies(u == slice_f(lo_f(u), hi_f(u)), n == uf('unpacked ' + one[i], U, INT)(self.slice(lo, hi))))
                lo = hi
            path.add(z3.And(n >= limits_of(c)[0], n < limits_of(c)[1]))
            out.append(SV('int', n))
        return tuple(out)

    def pickled(self, msg, protocol):
        path = self.path
        m = path.to_u(msg)
        t = pickled_f(m, path.to_u(protocol))
        path.add(z3.And(blen(t) >= 1, t != path.to_u(b''), unpickled_f(t) == m))
        if self.small:
            path.add(blen(t) < 2 ** 32)
        self.pickled_len = blen(t)
        return self.bytes(t)

    def dump(self, path, args, kwargs):
        names = ('obj', 'file', 'protocol')
        kw = dict(zip(names, args), **kwargs)
        call(path, get(path, kw['file'], 'write'), self.pickled(kw['obj'], kw.get('protocol')))

    def loads(self, path, args, kwargs):
        u = self.constant(args[0])
        self.loaded = u
        return SV('any', unpickled_f(u))

    def pieces(self, u):
        """the parts a byte string was put together from"""
        if z3.is_app(u) and u.decl().eq(cat_f):
            return self.pieces(u.arg(0)) + self.pieces(u.arg(1))
        return [u]


class Stream(object):
    """A socket which receives the stream up to its end, cut into any pieces, and may have nothing yet or fail."""

    def __init__(self, path, wire, start, end):
        self.path, self.wire, self.end = path, wire, end
        path.ghost.d['pos'] = SV('int', start)
        path.ghost.d['failed'] = SV('bool', z3.BoolVal(False))
        self.kind = Kind('socket', handler=self.getattr)
        self.kind.truth = lambda I, o: True
        self.sock = ref(path, self.kind, 'socket')
        model(path, 'select.select', lambda p, a, k: (PyList(()), PyList(()), PyList(())))

    @property
    def pos(self):
        return self.path.ghost.d['pos'].t

    def getattr(self, I, o, name):
        if name == 'recv':
            return Builtin('recv', lambda I, a, k: self.recv(*a))
        return NotImplemented

    def recv(self, size, flags=0):
        path = self.path
        n = num(path, size)
        path.check('a sensible number of bytes is asked for', n >= 0)
        what = path.choose(3, 'nothing yet, an error or some bytes')
        if what == 0:
            raise path.interp.exc('BlockingIOError', errno.EAGAIN, 'try again')
        if what == 1:
            path.write(path.ghost, 'failed', SV('bool', z3.BoolVal(True)))
            raise path.interp.exc('OSError', errno.ETIMEDOUT, 'failed')
        k = path.fresh('received', INT)
        left = self.end - self.pos
        path.add(z3.And(k >= 0, k <= n, k <= left, z3.Implies(z3.And(n > 0, left > 0), k >= 1)))
        p = self.pos
        path.write(path.ghost, 'pos', SV('int', z3.simplify(p + k)))
        return self.wire.bytes(self.wire.slice(p, p + k))
