"""A profiling server over ghost connections: an arbitrary set of clients, any of them watched."""
from .wire import *

CLIENT = Kind('client')
CLIENT.truth = lambda I, o: True
PROF = Kind('inner profiler')
PROF.truth = lambda I, o: True
KLASS = Kind('profiler class')
inner_has = uf('wraps', U, BOOL)
inner_f = uf('wrapped', U, U)
innermost = uf('innermost', U, U)
class_f = uf('class of', U, U)
latest_f = uf('result', INT, U)


def step_in(path, u):
    path.add(innermost(u) == z3.If(inner_has(u), innermost(inner_f(u)), u))


def prof_getattr(I, o, name):
    path = I.path
    if name == 'profiler':
        step_in(path, o.t)
        if not path.decide(inner_has(o.t)):
            raise I.exc('AttributeError', 'profiler')
        path.add(path.kind_fact(('ref', PROF), inner_f(o.t)))
        step_in(path, inner_f(o.t))
        return AbsRef(PROF, inner_f(o.t))
    S = path.server
    fn = {'start': S.on_start_profiler, 'stop': S.on_stop_profiler, 'is_running': S.on_running, 'result': S.on_result}.get(name)
    if fn is not None:
        path.check('the profiler of the server is used', o.t == S.profiler.t)
        return Builtin(name, lambda I, a, k: fn())
    return NotImplemented


PROF.handler = prof_getattr
PROF.typeval = lambda I, o: AbsRef(KLASS, class_f(o.t))


reader_of = uf('reader of', U, U)


def sock_getattr(I, o, name):
    S = I.path.server
    if name == 'sendall':
        return Builtin(name, lambda I, a, k: S.on_send(S.server, o, a[0]))
    if name == 'close':
        return Builtin(name, lambda I, a, k: S.on_close(S.server, o))
    if name in ('getpeername', 'getsockname'):
        def addr(I, a, k):
            v = S.on_addr(S.server, o)
            if v is None:
                raise I.exc('OSError', errno.ENOTCONN, 'not connected')
            return v
        return Builtin(name, addr) if name == 'getpeername' else Builtin(name, lambda I, a, k: S.on_addr(S.server, o) or 'name')
    if name == 'recv':
        return Builtin(name, lambda I, a, k: b'')
    return NotImplemented


SOCK = Kind('connection', handler=sock_getattr)
SOCK.truth = lambda I, o: True
READER = Kind('reader', handler=lambda I, o, name: Builtin(name, lambda I, a, k: None) if name == 'read' else NotImplemented)


def writer_getattr(I, o, name):
    S = I.path.server
    c = AbsRef(CONN, conn_of(o.t)) if S.conns else (AbsRef(READER, reader_of(o.t)), o)
    if name == 'write':
        return Builtin(name, lambda I, a, k: S.on_send(S.server, c, a[0]))
    if name == 'close':
        return Builtin(name, lambda I, a, k: S.on_close(S.server, c))
    if name == 'get_extra_info':
        return Builtin(name, lambda I, a, k: S.on_addr(S.server, c))
    return NotImplemented


def conn_getattr(I, o, name):
    if name == '__iter__':
        w = writer_of(o.t)
        I.path.add(conn_of(w) == o.t)
        for k, t in ((READER, creader_of(o.t)), (WRITER, w)):
            I.path.add(I.path.kind_fact(('ref', k), t))
        return Builtin(name, lambda I, a, k: (AbsRef(READER, creader_of(o.t)), AbsRef(WRITER, w)))
    return NotImplemented


conn_of, writer_of, creader_of = uf('connection of', U, U), uf('writer of connection', U, U), uf('reader of connection', U, U)
CONN = Kind('(reader, writer)', handler=conn_getattr)
CONN.truth = lambda I, o: True
WRITER = Kind('writer', handler=writer_getattr)
SPAWNED = Kind('spawned')


def spawned_getattr(I, o, name):
    S = I.path.server
    if name in ('link', 'add_done_callback'):
        for n, s in enumerate(S.spawned):
            if s[2].t.eq(o.t):
                return Builtin(name, lambda I, a, k, n=n: S.spawned[n].__setitem__(1, a[0]))
    return NotImplemented


SPAWNED.handler = spawned_getattr


def SpawnedRef(path, S, n):
    r = ref(path, SPAWNED, 'spawned')
    S.spawned[n].append(r)
    return r


LOCK = '''
def main(hook):
    class Lock(object):
        def acquire(self):
            hook('acquire')
        def release(self):
            hook('release')
        def __enter__(self):
            hook('acquire')
        def __exit__(self, *exc):
            hook('release')
    return Lock
'''

SERVER = '''
def main(Base, hook):
    class Server(Base):
        def serve_forever(self):
            pass
        def _send(self, client, data):
            hook('send', self, client, data)
        def _close(self, client):
            hook('close', self, client)
        def _addr(self, client):
            return hook('addr', self, client)
        def _start_profiling(self):
            hook('start', self)
        def _start_watching(self, client):
            hook('watch', self, client)
    return Server
'''

class Server(object):
    """`make(profiler)` builds the server; the hooks below are what its connections and profiler do."""

    def __init__(self, path):
        self.path = path
        self.W = Wire(path)
        g = path.ghost.d
        g['running'] = SV('bool', path.fresh('running', BOOL))
        g['results'] = SV('int', z3.IntVal(0))
        self.kappa = None
        self.started = 0          # loops started
        self.watched = []         # clients whose keys are counted
        self.sends = []           # (client, bytes) in a part without loops
        self.closed = []
        self.greeted = []
        self.env = None           # called at each send
        self.faults = True
        path.on_map = self.on_map
        path.server = self
        self.W.small = True
        self.profiler = ref(path, PROF, 'profiler')
        step_in(path, self.profiler.t)
        self.inner = AbsRef(KLASS, class_f(innermost(self.profiler.t)))
        path.interp.candidates = self.candidates
        self.protocol = SV('int', path.fresh('protocol', INT))
        self.interval = SV('real', path.fresh('interval', REAL))
        path.add(self.interval.t > 0)
        model(path, 'asyncio.coroutine', lambda p, a, k: a[0])
        self.logged = 0
        self.spawned = []         # [what, called when it ends]
        self.slept = 0
        self.locked = 0

    def candidates(self, lv):
        for loc in lv.refs(PROF.name):
            yield ('the innermost profiler of %s stays' % lv.label(loc),
                   lambda loc=loc: innermost(self.path.to_u(lv.val(loc))) == innermost(self.path.to_u(lv.entry(loc))))

    impl = 'base'
    conns = False       # (reader, writer) pairs as a kind of their own, for any set of them

    def build(self):
        return {'base': self.stub, 'select': self.select, 'gevent': self.gevent, 'asyncio': self.asyncio}[self.impl]()

    @staticmethod
    def modules(impl):
        return ['profiling.remote'] + ([] if impl == 'base' else ['profiling.remote.' + impl])

    @property
    def client_kind(self):
        return {'base': ('ref', CLIENT), 'asyncio': ('ref', CONN)}.get(self.impl, ('ref', SOCK))

    def kwargs(self):
        return {'log': Builtin('log', self.log), 'pickle_protocol': self.protocol}

    def select(self):
        path = self.path
        self.listener = ref(path, SOCK, 'listener')
        model(path, 'select.select', self.on_select)
        model(path, 'time.time', lambda p, a, k: SV('real', p.fresh('time', REAL)))
        self.server = path.interp.call(cls(path, 'profiling.remote.select:SelectProfilingServer'),
                                       (self.listener, self.profiler, self.interval), self.kwargs())
        return self.server

    def on_select(self, path, a, k):
        """waiting for sockets: the profiling loop has been started"""
        raise path.interp.exc('SystemExit', 'profiling')

    def gevent(self):
        path = self.path
        model(path, 'gevent.server.StreamServer.__init__', lambda p, a, k: None)
        model(path, 'gevent.lock.Semaphore', lambda p, a, k: call(p, call(p, program(p, LOCK), Builtin('hook', self.hook))))
        model(path, 'gevent.spawn', lambda p, a, k: self.on_spawn(lambda: p.interp.call(a[0], a[1:], k)))
        model(path, 'gevent.sleep', lambda p, a, k: self.on_sleep(a[0] if a else 0))
        model(path, 'gevent.util.wrap_errors', lambda p, a, k: a[1])
        self.server = path.interp.call(cls(path, 'profiling.remote.gevent:GeventProfilingServer'),
                                       (ref(path, SOCK, 'listener'), self.profiler, self.interval), self.kwargs())
        return self.server

    def asyncio(self):
        path = self.path

        def ensure_future(p, a, k):
            return self.on_spawn(a[0])
        model(path, 'asyncio.ensure_future', ensure_future)
        model(path, 'asyncio.async', ensure_future)
        model(path, 'asyncio.sleep', lambda p, a, k: self.on_sleep(a[0]))
        self.server = path.interp.call(cls(path, 'profiling.remote.asyncio:AsyncIOProfilingServer'),
                                       (self.profiler, self.interval), self.kwargs())
        return self.server

    # what is spawned and not watched for its end is the profiling loop
    def on_spawn(self, what):
        self.spawned.append([what, None])
        return SpawnedRef(self.path, self, len(self.spawned) - 1)

    def on_sleep(self, interval):
        self.path.check('one interval is waited for', eq(self.path, interval, self.interval))
        self.slept += 1
        return ()

    def loops(self):
        """profiling loops started"""
        return self.started + sum(1 for s in self.spawned if s[1] is None)

    def watchers(self):
        return len(self.greeted) + sum(1 for s in self.spawned if s[1] is not None)

    def on_acquire(self):
        self.path.check('the lock is free', not self.locked)
        self.locked += 1

    def on_release(self):
        self.locked -= 1

    def stub(self):
        path = self.path
        c = call(path, program(path, SERVER), cls(path, 'profiling.remote:ProfilingServer'), Builtin('hook', self.hook))
        self.server = path.interp.call(c, (self.profiler, self.interval, Builtin('log', self.log)), {'pickle_protocol': self.protocol})
        return self.server

    def log(self, I, a, k):
        self.logged += 1

    def client(self, name='client'):
        path = self.path
        if self.impl == 'asyncio':
            if self.conns:
                return ref(path, CONN, name)
            r, w = ref(path, READER, name + ' reader'), ref(path, WRITER, name + ' writer')
            path.add(reader_of(w.t) == r.t)
            return (r, w)
        return ref(path, CLIENT if self.impl == 'base' else SOCK, name)

    def differ(self, a, b):
        path = self.path
        if self.impl == 'asyncio' and not self.conns:
            path.add(a[1].t != b[1].t)
        path.add(path.to_u(a) != path.to_u(b))

    def watch(self, *clients):
        self.watched += list(clients)

    def on_map(self, m):
        path = self.path
        for c in self.watched:
            u = path.to_u(c)
            n = Sum('is watched', lambda v, u=u: z3.If(path.to_u(v) == u, 1, 0), INT, True).eval(path, (Var(m.keys),))
            path.add(n == z3.If(zb(m.present(c)), 1, 0))

    def any_clients(self, kind=('ref', CLIENT)):
        """Any set of clients."""
        path = self.path
        s = self.server.d.get('clients')
        if not isinstance(s, PySet):
            raise Unsupported('clients is not a set')
        path.write(s, 'c', DictC(path.new_map(kind, 'bool', 'clients')))

    def has(self, c):
        s = self.server.d.get('clients')
        if not isinstance(s, PySet):
            raise Unsupported('clients is not a set')
        return zb(lib.dict_has(self.path.interp, s.d['c'], c))

    def size(self):
        return num(self.path, lib.dict_len(self.path.interp, self.server.d['clients'].d['c']))

    def hook(self, I, a, k):
        return getattr(self, 'on_' + a[0].replace(' ', '_'))(*a[1:])

    def is_kappa(self, c):
        return self.kappa is not None and self.path.decide(self.path.to_u(c) == self.path.to_u(self.kappa))

    # connections
    def error(self):
        raise self.path.interp.exc('OSError', errno.EPIPE, 'broken')

    def on_send(self, server, client, data):
        raise NotImplementedError

    def on_close(self, server, client):
        self.closed.append(client)

    def on_addr(self, server, client):
        what = self.path.choose(3, 'address') if self.addresses else 0
        return [None, ('host', 80), 'name'][what]

    addresses = False

    def on_start(self, server):
        self.started += 1

    def on_watch(self, server, client):
        self.greeted.append(('watch', client))

    # the profiler
    def on_start_profiler(self):
        path = self.path
        if path.decide(path.ghost.d['running'].t):
            raise path.interp.exc('RuntimeError', 'already started')
        path.write(path.ghost, 'running', SV('bool', z3.BoolVal(True)))

    def on_stop_profiler(self):
        path = self.path
        if not path.decide(path.ghost.d['running'].t):
            raise path.interp.exc('RuntimeError', 'not started')
        path.write(path.ghost, 'running', SV('bool', z3.BoolVal(False)))

    def on_running(self):
        return self.path.ghost.d['running']

    def on_result(self):
        path = self.path
        path.check('the profiler is stopped before its result is taken', z3.Not(path.ghost.d['running'].t))
        n = z3.simplify(path.ghost.d['results'].t + 1)
        path.write(path.ghost, 'results', SV('int', n))
        return SV('any', latest_f(n))

    def packed_result(self, n):
        """what a broadcast of the n-th result sends"""
        return self.packed(0x12, SV('any', latest_f(n)), self.protocol)

    def packed(self, method, msg, protocol):
        path = self.path
        data = call(path, cls(path, 'profiling.remote:pack_msg'), method, msg, protocol)
        return self.W.constant(data)


class Greeting(Server):
    broken = False

    def on_send(self, server, client, data):
        path = self.path
        path.check('only the new client is sent to', eq(path, client, self.new) if self.new is not None else False)
        path.check('nothing is sent on a closed connection', not self.closed)
        path.check('nothing is sent after a failure', not self.broken)
        what = path.choose(3, 'the send works, fails, or the client is reported gone') if self.new is not None and self.faults else 0
        if what == 2:
            call(path, get(path, server, 'disconnected'), client)
        if what:
            self.broken = True
            self.error()
        self.sends.append(self.W.constant(data))

    new = None


def connect(S, c):
    """connected(c); the error that is raised, if any"""
    path = S.path
    r, e = attempt(path, lambda: call(path, get(path, S.server, 'connected'), c))
    if S.impl == 'select' and is_exc(path, e, 'SystemExit'):
        S.started += 1      # the loop runs inside
        return None
    return e
