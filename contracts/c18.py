"""C18: the cycles of the server, for an arbitrary client KAPPA among any set of clients.

    loop invariant of the cycles (at every yield and at the end):
        KAPPA was a client when the last interval ended  =>  it was sent exactly one message in that cycle:
            pack(RESULT, the result taken in that cycle, protocol);  else it was sent none
        a send to KAPPA failed  =>  it is no client, was closed exactly once and was never sent to again
    at every yield the profiler runs;  result() is called on a stopped profiler;  at the end it does not run and there are no clients
    between two yields anything may happen: clients come and go, the profiler is stopped by somebody else
    loop invariant of the broadcast: the visited clients were sent to;  of the removal: the visited failures are gone
    a loop is started (C17) only when none goes on: the flag is set from the first step of profiling() to its end, however it ends
"""
from .server import *


class Cycles(Server):

    def __init__(self, path, impl):
        Server.__init__(self, path)
        self.impl = impl
        self.conns = True
        g = path.ghost.d
        for n in ('sent', 'closed'):
            g[n] = SV('int', z3.IntVal(0))
        for n in ('broken', 'expected'):
            g[n] = SV('bool', z3.BoolVal(False))
        self.meanwhile = False

    def g(self, name):
        return self.path.ghost.d[name].t

    def put(self, name, t):
        self.path.write(self.path.ghost, name, SV('int' if name in ('sent', 'closed') else 'bool', z3.simplify(zb(t)) if not z3.is_arith(t) else z3.simplify(t)))

    def on_send(self, server, client, data):
        path = self.path
        if self.newcomer is not None:
            path.check('the new client is sent to', eq(path, client, self.newcomer))
            self.greeting.append(self.W.constant(data))
            return
        path.check('only results are sent', self.W.constant(data) == self.packed_result(self.g('results')))
        if self.meanwhile and path.choose(2, 'the watched client is reported gone meanwhile'):
            call(path, get(path, server, 'disconnected'), self.kappa)
        if self.comes and path.choose(2, 'a client connects meanwhile'):
            self.connects()
        mine = self.is_kappa(client)
        if mine:
            path.check('nothing is sent after a part of a message', z3.Not(self.g('broken')))
            self.put('sent', self.g('sent') + 1)
            if path.decide(self.g('closed') > 0):
                self.put('broken', z3.BoolVal(True))
                self.error()
        if path.choose(2, 'the send fails'):
            if mine:
                self.put('broken', z3.BoolVal(True))
            self.error()

    newcomer = None
    comes = False

    def connects(self):
        """a new client is greeted with the result being broadcast"""
        path = self.path
        c = self.client('newcomer')
        self.differ(c, self.kappa)
        path.add(z3.Not(self.has(c)))
        self.newcomer, self.greeting, started = c, [], self.loops()
        r, e = attempt(path, lambda: call(path, get(path, self.server, 'connected'), c))
        self.newcomer = None
        path.check('connecting meanwhile does not fail', e is None)
        version = cls(path, 'profiling.remote:__version__')
        want = [self.packed(0x10, (self.protocol, version), 0), self.packed(0x11, self.inner, self.protocol), self.packed_result(self.g('results'))]
        path.check('a client which connects meanwhile is greeted with the result of the cycle',
                   z3.And(*[a == b for a, b in zip(self.greeting, want)]) if len(self.greeting) == len(want) else z3.BoolVal(False))
        path.check('no other loop is started', self.loops() == started)

    def on_close(self, server, client):
        if self.is_kappa(client):
            self.put('closed', self.g('closed') + 1)

    def candidates(self, lv):
        for c in Server.candidates(self, lv):
            yield c
        path = self.path
        u = path.to_u(self.kappa)
        met = Sum('is watched', lambda v: z3.If(path.to_u(v) == u, 1, 0), INT, True)
        closed0 = [v.t for k, v in lv.cut.entry.items() if k[1] == 'closed' and k[0] == path.ghost.serial]
        sent0 = [v.t for k, v in lv.cut.entry.items() if k[1] == 'sent' and k[0] == path.ghost.serial]
        broken0 = [v.t for k, v in lv.cut.entry.items() if k[1] == 'broken' and k[0] == path.ghost.serial]
        has = lambda: self.has(self.kappa)
        g = self.g
        closed0 = closed0[0] if closed0 else g('closed')
        sent0 = sent0[0] if sent0 else g('sent')
        broken0 = broken0[0] if broken0 else g('broken')
        had0 = has()
        yield ('a client which was expected was sent to once', lambda: z3.Implies(g('expected'), g('sent') == 1))
        yield ('another one was not sent to', lambda: z3.Implies(z3.Not(g('expected')), g('sent') == 0))
        yield ('a broken client is gone', lambda: z3.Implies(g('broken'), z3.And(z3.Not(has()), g('closed') == 1)))
        yield ('at most once closed', lambda: z3.And(g('closed') >= 0, g('closed') <= 1))
        yield ('what is closed stays closed', lambda: g('closed') >= closed0)
        yield ('results are counted', lambda: g('results') >= 0)
        yield ('a closed client is gone', lambda: z3.Implies(g('closed') > 0, z3.Not(has())))
        yield ('the profiler is stopped', lambda: z3.Not(g('running')))
        yield ('still a client or closed', lambda had=had0: z3.Implies(self.entry_has(lv), z3.Or(has(), g('closed') == closed0 + 1)))
        yield ('a client was one before', lambda: z3.Implies(has(), self.entry_has(lv)))
        if lv.is_for:
            seen = lambda: met.eval(path, lv.P)
            yield ('the visited are sent to', lambda: g('sent') == sent0 + seen())
            yield ('only the visited break', lambda: z3.Implies(g('broken'), z3.Or(broken0, seen() > 0)))
            yield ('the visited are closed', lambda: g('closed') == closed0 + z3.If(z3.And(self.entry_has(lv), seen() > 0), 1, 0))
            yield ('the visited are gone, the others stay', lambda: has() == z3.And(self.entry_has(lv), seen() == 0))
            for label, s, s0, k in lv.seq_locs():
                if k == 'bottom' or k[0] in ('ref', 'tup'):
                    n = lambda s=s: met.eval(path, s())
                    yield ('%s has the client iff it broke' % label, lambda n=n: n() == z3.If(z3.And(g('broken'), z3.Not(broken0)), 1, 0))
                    yield ('%s has the client if it broke' % label, lambda n=n: z3.And(n() >= 0, n() <= seen(), z3.Implies(
                        z3.And(g('broken'), z3.Not(broken0)), n() == 1)))

            for loc in lv.maps():
                if loc[0] != self.server.d['clients'].serial:
                    n = lambda loc=loc: zb(lib.dict_has(path.interp, lv.val(loc), self.kappa))
                    yield ('%s contains the client iff it broke' % lv.label(loc), lambda n=n: n() == z3.And(g('broken'), z3.Not(broken0)))

    def entry_has(self, lv):
        s = self.server.d['clients']
        for loc in lv.maps():
            if loc[0] == s.serial:
                return zb(lib.dict_has(self.path.interp, lv.entry(loc), self.kappa))
        return self.has(self.kappa)

    def after_cycle(self, when):
        path, g = self.path, self.g
        path.check('%s: every client was sent the result once' % when, z3.Implies(g('expected'), g('sent') == 1))
        path.check('%s: nobody else was sent anything' % when, z3.Implies(z3.Not(g('expected')), g('sent') == 0))
        path.check('%s: a client whose send failed is dropped' % when, z3.Implies(g('broken'), z3.Not(self.has(self.kappa))))
        path.check('%s: and closed once' % when, z3.Implies(g('broken'), g('closed') == 1))
        path.check('%s: a client is not closed while it is one' % when, z3.Implies(self.has(self.kappa), g('closed') == 0))

    def interval_passes(self):
        """clients come and go, somebody stops the profiler"""
        path, g = self.path, self.g
        was = self.has(self.kappa)
        self.any_clients(self.client_kind)
        # a connection which has gone does not come back
        path.add(z3.Implies(z3.Or(g('broken'), g('closed') > 0), z3.Not(self.has(self.kappa))))
        self.put('expected', self.has(self.kappa))
        self.put('sent', z3.IntVal(0))
        if path.choose(2, 'somebody stops the profiler'):
            path.write(path.ghost, 'running', SV('bool', z3.BoolVal(False)))


    # the interval, as the implementations wait for it
    def at_interval(self):
        path = self.path
        self.after_cycle('after a cycle')
        path.check('the profiler runs during the interval', self.g('running'))
        path.cover('interval')
        self.interval_passes()

    def on_sleep(self, interval):
        Server.on_sleep(self, interval)
        if self.impl == 'gevent':
            self.path.check('the loop has the lock', self.locked == 1)
            self.at_interval()
            return None
        return PyList((Unit(None),))

    def on_select(self, path, a, k):
        path.check('one interval is waited for', eq(path, a[3], self.interval))
        self.at_interval()
        return (PyList(()), PyList(()), PyList(()))


def cycle(impl, meanwhile=False, comes=False):
    def run(path):
        S = Cycles(path, impl)
        s = S.build()
        S.meanwhile, S.comes = meanwhile, comes
        S.kappa = S.client('kappa')
        S.watch(S.kappa)
        S.any_clients(S.client_kind)
        S.put('expected', z3.BoolVal(False))
        path.write(path.ghost, 'running', SV('bool', z3.BoolVal(False)))
        if impl in ('base', 'asyncio'):
            gen = call(path, get(path, s, 'profiling' if impl == 'base' else 'profile_periodically'))
            while True:
                r, e = attempt(path, lambda: path.interp.next_of(gen))
                if e is not None:
                    break
                S.at_interval()
            ended = is_exc(path, e, 'StopIteration')
        else:
            r, e = attempt(path, lambda: call(path, get(path, s, 'profile_periodically')))
            ended = e is None
            path.check('the lock is free', S.locked == 0)
        path.check('nothing but the end of profiling', ended, detail=repr(e and e.d))
        S.after_cycle('at the end')
        path.check('profiling ends only when nobody is connected', S.size() == 0)
        path.check('the profiler is stopped', z3.Not(S.g('running')))
        path.cover('ended')
    return run


for impl in ('base', 'select', 'gevent', 'asyncio'):
    contract('C18', 'the cycles (%s)' % impl, Server.modules(impl))(cycle(impl))
contract('C18', 'the cycles, clients leave meanwhile', ['profiling.remote'])(cycle('base', True))
contract('C18', 'the cycles, a client connects meanwhile', ['profiling.remote'])(cycle('base', False, True))


class Dying(Greeting):
    dies = False

    def on_result(self):
        if self.dies:
            raise self.path.interp.exc('ValueError', 'no result')
        return Greeting.on_result(self)


@contract('C18', 'profiling may start again however it ended', ['profiling.remote'])
def again(path):
    S = Dying(path)
    s = S.build()
    S.faults = False
    path.interp.unroll_yields = True
    a, b = S.client('a'), S.client('b')
    S.differ(a, b)
    S.new = a
    path.check('the first connection succeeds', connect(S, a) is None)
    path.check('it starts profiling', S.loops() == 1)
    gen = call(path, get(path, s, 'profiling'))
    path.interp.next_of(gen)
    how = path.choose(4, 'it is abandoned, fails, is abandoned later, ends')
    if how == 0:
        call(path, get(path, gen, 'close'))
    elif how == 1:
        S.dies = True
        _, e = attempt(path, lambda: path.interp.next_of(gen))
        path.check('the failure is passed on', is_exc(path, e, 'ValueError'))
    elif how == 2:
        path.interp.next_of(gen)
        call(path, get(path, gen, 'close'))
    if how == 3:
        call(path, get(path, s, 'disconnected'), a)
        _, e = attempt(path, lambda: path.interp.next_of(gen))
        path.check('it ends', is_exc(path, e, 'StopIteration'))
    else:
        call(path, get(path, s, 'disconnected'), a)
    S.new, S.closed, S.sends = b, [], []
    path.check('the next connection succeeds', connect(S, b) is None)
    path.check('it starts profiling again', S.loops() == 2)
    path.cover('again')


@contract('C18', 'the profiling greenlet is killed', ['profiling.remote', 'profiling.remote.gevent'])
def killed(path):
    S = Greeting(path)
    S.impl = 'gevent'
    s = S.build()
    S.faults = False
    a = S.client('a')
    S.new = a
    connect(S, a)
    path.check('it starts profiling', S.loops() == 1)

    def sleep(interval):
        path.check('the loop has the lock', S.locked == 1)
        raise path.interp.exc('SystemExit', 'killed')
    S.on_sleep = sleep
    _, e = attempt(path, S.spawned[-1][0])
    path.check('the loop ends', is_exc(path, e, 'SystemExit'))
    path.check('the lock is free', S.locked == 0)
    path.cover('killed')


ASSUMPTIONS = ['a connection that has gone is not reported as connected again',
               'greenlets switch only at sends, sleeps and joins: the steps of one cycle are otherwise not interleaved',
               'a profiling() generator that is abandoned is closed (reference counting)',
               'asyncio tasks created in one iteration of the event loop start before connections found later are handled']
