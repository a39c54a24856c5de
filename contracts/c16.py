"""C16: messages over a byte stream.

    recv_msg(sock), for a stream which at its position holds pack_msg(method, msg, protocol), and anything after it, received in
    arbitrary pieces (each call gives any number of bytes from 1 up to what was asked for, or nothing yet):
        loop invariant of recv(): the pieces so far follow each other and end at the position; bytes wanted + position is constant
        ensures  result == (method, msg) and the position is advanced by exactly the length of the packed message
                 if the stream ends earlier: a connection error is raised, and nothing is returned
By induction over the messages every sequence of messages is received in order.
"""
from .wire import *


def setting(path, cut):
    """A stream with one packed message at an arbitrary position, ending inside it or anywhere after it."""
    W = Wire(path)
    method = SV('int', path.fresh('method', INT))
    path.add(z3.And(method.t >= 0, method.t < 256))
    msg = path.fresh_value('any', 'message')
    protocol = SV('int', path.fresh('protocol', INT))
    path.hint('method', method)
    data, e = attempt(path, lambda: call(path, cls(path, 'profiling.remote:pack_msg'), method, msg, protocol))
    small = W.pickled_len < 2 ** 32
    if e is not None:
        path.check('packing fails only for messages beyond 32 bits', z3.Not(small))
        raise PathEnd()
    path.add(small)
    path.check('packed to bytes', W.is_bytes(data))
    data = W.constant(data)
    start, end = path.fresh('start', INT), path.fresh('end', INT)
    n = W.len(data)
    path.add(z3.And(start >= 0, end >= start))
    if cut:
        path.add(end < start + n)
    else:
        path.add(end >= start + n)
    # the stream carries the packed bytes
    at = start
    for p in W.pieces(data):
        l = W.len(p)
        path.add(W.slice(at, at + l) == p)
        at = at + l
    S = Stream(path, W, start, end)
    path.add(n == at - start)

    def candidates(lv):
        g = lv.cut.entry
        pos0 = [v for k, v in g.items() if k[1] == 'pos']
        pos0 = pos0[0].t if pos0 else S.pos
        for loc in lv.numeric():
            if lv.label(loc).startswith('Ghost'):
                continue
            v, v0 = lambda loc=loc: num(path, lv.val(loc)), lambda loc=loc: num(path, lv.entry(loc))
            yield ('%s + position is constant' % lv.label(loc), lambda v=v, v0=v0: v() + S.pos == v0() + pos0)
            yield ('%s - position is constant' % lv.label(loc), lambda v=v, v0=v0: v() - S.pos == v0() - pos0)
            yield ('%s is not negative' % lv.label(loc), lambda v=v: v() >= 0)
        yield ('the position is within the stream', lambda: z3.And(S.pos >= pos0, S.pos <= end))
        yield ('nothing failed', lambda: z3.Not(path.ghost.d['failed'].t))
        for label, s, s0, k in lv.seq_locs():
            if k in ('bytes', 'bottom'):
                yield ('%s: the pieces follow each other' % label, lambda s=s: z3.And(
                    (path.length(s()) == 0) == (S.pos == pos0),
                    z3.Implies(S.pos != pos0, z3.And(W.ends(s())[0] == pos0, W.ends(s())[1] == S.pos)),
                    z3.Implies(S.pos == pos0, z3.And(W.ends(s())[0] == -2, W.ends(s())[1] == -2))))
        for loc in lv.locs:
            if lv.kind(loc) == 'bytes':
                yield ('%s is what was received' % lv.label(loc), lambda loc=loc: path.to_u(lv.val(loc)) == W.slice(pos0, S.pos))
        for name, v in sorted(lv.cut.frames[-1].d.items(), key=str):
            if isinstance(v, int) and not isinstance(v, bool) or isinstance(v, SV) and v.kind == 'int':
                t = num(path, v)
                yield ('%s bounds what is received' % (name,), lambda t=t: S.pos - pos0 <= t)
    path.interp.candidates = candidates
    return W, S, method, msg, start, n


@contract('C16', 'receiving a packed message', ['profiling.remote'])
def whole(path):
    W, S, method, msg, start, n = setting(path, False)
    r, e = attempt(path, lambda: call(path, cls(path, 'profiling.remote:recv_msg'), S.sock))
    if e is not None:
        path.check('receiving fails only if the socket does', z3.And(path.ghost.d['failed'].t, z3.BoolVal(is_exc(path, e, 'OSError'))))
        path.cover('failed')
        return
    if not isinstance(r, tuple) or len(r) != 2:
        raise Unsupported('received %r' % (r,))
    path.check('the method is received', eq(path, r[0], method))
    path.check('the message is received', eq(path, r[1], msg))
    path.check('exactly the bytes of the message are consumed', S.pos == start + n)
    path.cover('received')


@contract('C16', 'the stream ends inside a message', ['profiling.remote'])
def cut(path):
    W, S, method, msg, start, n = setting(path, True)
    r, e = attempt(path, lambda: call(path, cls(path, 'profiling.remote:recv_msg'), S.sock))
    path.check('nothing is returned', e is not None)
    if e is not None:
        path.check('a connection error is raised', is_exc(path, e, 'OSError'))
        path.cover('raised')


ASSUMPTIONS = ['pickle.loads gives back what pickle.dump(s) packed, for every protocol', 'struct.unpack undoes struct.pack of the same format',
               'a message of more than 2**32 - 1 bytes is refused (struct)',
               'sock.recv(n) gives between 1 and n bytes of the stream in order, none only at its end, or an error']
