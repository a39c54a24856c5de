"""C17: the greeting of a client and its removal.

    connected(c): sends to c exactly pack(WELCOME, (protocol, version), 0), pack(PROFILER, class of the innermost profiler),
        and the latest broadcast data, if there is one, in this order; before that c is a client
        a send that fails: nothing is raised, nothing further is sent, c is no client and was closed exactly once
        profiling is started iff c is now the only client and no profiling is going on
    disconnected(c): a client is removed and closed once; else nothing happens; other clients are not concerned
"""
from .server import *


def gone(S, c):
    """what watches the client reports its end"""
    path = S.path
    n = 0
    for s in list(S.spawned):
        if s[1] is not None:
            n += 1
            call(path, s[1], s[2])
    if S.impl in ('base', 'select'):
        call(path, get(path, S.server, 'disconnected'), c)


def greet(impl, cycles, addresses=False):
    def run(path):
        S = Greeting(path)
        S.addresses = addresses
        S.impl = impl
        s = S.build()
        before = 0
        if cycles:
            # another client was there before, for some cycles
            S.faults = False
            other = S.client('earlier')
            S.new = other
            connect(S, other)
            path.interp.unroll_yields = True
            gen = call(path, get(path, s, 'profiling'))
            for _ in range(cycles + 1):
                path.interp.next_of(gen)
            before = path.choose(3, 'the earlier client is there, has just gone, or the loop has ended')
            if before:
                call(path, get(path, s, 'disconnected'), other)
            if before == 2:
                _, e = attempt(path, lambda: path.interp.next_of(gen))
                path.check('profiling ends with the last client', is_exc(path, e, 'StopIteration'))
            S.sends, S.closed, S.started, S.faults, S.greeted, S.spawned = [], [], 0, True, [], []
        c = S.client('new')
        if cycles:
            S.differ(c, other)
        S.new = c
        e = connect(S, c)
        path.check('no error reaches the server', e is None, detail=repr(e and (e, e.d)))
        if e is not None:
            return
        n = path.ghost.d['results'].t
        version = cls(path, 'profiling.remote:__version__')
        want = [S.packed(0x10, (S.protocol, version), 0), S.packed(0x11, S.inner, S.protocol)]
        if cycles:
            want.append(S.packed_result(n))
        for i, (a, b) in enumerate(zip(S.sends, want)):
            path.check('message %d of the greeting' % i, a == b)
        if S.broken:
            path.check('not more than the greeting', len(S.sends) < len(want))
            path.check('the client is dropped', z3.Not(S.has(c)))
            path.check('and closed once', len(S.closed) == 1)
            for x in S.closed:
                path.check('the client is closed', eq(path, x, c))
            path.check('profiling does not start for it', S.loops() == 0)
            path.cover('broken')
        else:
            path.check('the whole greeting', len(S.sends) == len(want))
            path.check('the client is managed', S.has(c))
            path.check('nobody is closed', not S.closed)
            path.check('profiling starts for the first client', S.loops() == (1 if not cycles or before == 2 else 0))
            if impl != 'select':
                path.check('it is watched once', S.watchers() == 1)
            path.cover('greeted')
        for i in range(2):      # going away, reported twice
            r, e = attempt(path, lambda: gone(S, c))
            path.check('a report of its end raises nothing', e is None)
        path.check('it is forgotten', z3.Not(S.has(c)))
        path.check('and closed exactly once', len(S.closed) == 1)
    return run


for impl in ('base', 'select', 'gevent', 'asyncio'):
    contract('C17', 'greeting without a result (%s)' % impl, Server.modules(impl))(greet(impl, 0))
    if impl != 'base':
        contract('C17', 'greeting with a result (%s)' % impl, Server.modules(impl))(greet(impl, 1))
contract('C17', 'greeting with any address', ['profiling.remote'])(greet('base', 0, True))
contract('C17', 'greeting with a result', ['profiling.remote'])(greet('base', 1))
contract('C17', 'greeting with the latest result', ['profiling.remote'])(greet('base', 2))


class AnyTime(Greeting):
    """the server's clients are any set, whose members are not sent to"""

    def on_close(self, server, client):
        Greeting.on_close(self, server, client)
        if len(self.closed) < 4 and self.again and self.path.choose(2, 'reported gone again while it is being closed'):
            call(self.path, get(self.path, server, 'disconnected'), client)

    again = False


def any_time(looping):
    def run(path):
        S = AnyTime(path)
        s = S.stub()
        S.faults = False
        c, other = S.client('new'), S.client('other')
        path.add(c.t != other.t)
        S.watch(c, other)
        gen = None
        if looping:
            S.new = S.client('earlier')
            call(path, get(path, s, 'connected'), S.new)
            path.interp.unroll_yields = True
            gen = call(path, get(path, s, 'profiling'))
            path.interp.next_of(gen)
            S.started, S.sends = 0, []
        S.any_clients()
        n, had, there = S.size(), S.has(other), S.has(c)
        if not looping:
            path.add(z3.Not(there))
        S.new = c
        S.faults = True
        r, e = attempt(path, lambda: call(path, get(path, s, 'connected'), c))
        path.check('no error reaches the server', e is None, detail=repr(e and (e, e.d)))
        if e is not None:
            return
        path.check('other clients stay', S.has(other) == had)
        if S.broken:
            path.check('profiling is not started for a client which is gone', S.started == 0)
            path.cover('broken')
            return
        path.check('the client is managed', S.has(c))
        if looping:
            path.check('profiling goes on already', S.started == 0)
        else:
            path.check('the first client makes profiling start', z3.BoolVal(S.started == 1) == (n == 0))
            path.check('at most once', S.started <= 1)
        path.cover('greeted')
    return run


contract('C17', 'connecting at any time', ['profiling.remote'])(any_time(False))
contract('C17', 'connecting while profiling', ['profiling.remote'])(any_time(True))


@contract('C17', 'going away at any time', ['profiling.remote'])
def away(path):
    S = AnyTime(path)
    s = S.stub()
    c, other = S.client('client'), S.client('other')
    path.add(c.t != other.t)
    S.watch(c, other)
    S.any_clients()
    S.again = True
    n, had, there = S.size(), S.has(other), path.decide(S.has(c))
    for i in range(3):
        r, e = attempt(path, lambda: call(path, get(path, s, 'disconnected'), c))
        path.check('nothing is raised', e is None)
        path.check('it is forgotten', z3.Not(S.has(c)))
        path.check('a client is closed once, else nobody', len(S.closed) == (1 if there else 0))
        for x in S.closed:
            path.check('the client is closed', eq(path, x, c))
        path.check('other clients stay', S.has(other) == had)
        path.check('one client less', S.size() == (n - 1 if there else n))
    path.check('nothing is sent', not S.sends)
    path.cover('was a client' if there else 'was none')


ASSUMPTIONS = []
