"""C18: cycles and broadcasts."""
import itertools
import socket
import threading
import time
from servers import *
from h17 import run, wait, random_histories, short_histories
from profiling.remote import recv_msg

RULE = ('histories of connections, disconnections, broken sends (with and without a report in the meantime), starts and stops by somebody else '
        'and cycles, exhaustive up to 4 events and random up to 60; real servers with several clients, one of which never reads; '
        'distinct = different histories')


def breaking(H):
    """three clients, each breaking at every message or not at all"""
    kinds = [(None,), (2, False), (2, True), (3, False), (3, True), (4, True)]
    for a, b, c in itertools.product(kinds, repeat=3):
        for lead in ([], [('step',)], [('stop',), ('step',)]):
            ops = [('connect',) + a] + lead + [('connect',) + b, ('connect',) + c] + [('step',), ('step',), ('stop',), ('step',),
                                                                                      ('gone', 0), ('step',), ('gone', 1), ('gone', 2), ('step',), ('connect',), ('step',)]
            if not run(H, ops):
                return


def last_leaves(H):
    """the last client leaves during the interval, and perhaps another one comes"""
    for n in range(1, 4):
        for come in range(3):
            for rounds in range(1, 3):
                ops = []
                total = 0
                for _ in range(rounds):
                    ops += [('connect',)] * n + [('step',)] * 2
                    ops += [('gone', i + total) for i in range(n)]
                    total += n
                    ops += [('connect',)] * come + [('step',), ('step',)] + [('gone', i + total) for i in range(come)] + [('step',)]
                    total += come
                run(H, ops + [('connect',), ('step',)])


def come_meanwhile(H):
    """clients connect and go while a result is being sent to another one"""
    for n in range(1, 5):
        for cycles in range(3):
            for at in range(n):
                for late in (False, True):
                    inp = dict(clients=n, cycles_before=cycles, during_the_send_to=at, one_more_goes=late)
                    H.case(inp)
                    h = History(H, lambda: inp)
                    for _ in range(n):
                        h.connect()
                    for _ in range(cycles):
                        h.step()
                    s, new = h.server, Conn(50)
                    seen = []

                    def during(data):
                        seen.append(bytes(data))
                        s.connected(new)
                        if late:
                            s.disconnected(new)
                    h.clients[at].during = during
                    h.guarded('a cycle', s.step)
                    if not H.expect(len(seen) == 1, 'client %d is not sent to' % at, inp):
                        continue
                    H.equal(short(new.got), short(greeting(s, h.inner, seen[0])), 'what the client that connects meanwhile gets', inp)
                    for c in h.clients:
                        H.equal(short(c.got[-1:]), short(seen), 'what %r gets' % c, inp)
                    H.equal((new.closes, new in s.clients), (1, False) if late else (0, True), 'closed, managed', inp)
                    H.equal(s.starts, 1, 'loops started', inp)
                    h.guarded('the next cycle', s.step)
                    H.equal(len(new.got), 3 if late else 4, 'messages to the new client', inp)
                    for p in s.problems:
                        H.fail(p, inp)


def started_already(H):
    """somebody else has started the profiler when a cycle begins"""
    for n in range(1, 3):
        for cycles in range(3):
            ops = [('connect',)] * n + [('step',)] * cycles + [('gone', i) for i in range(n)] + [('step',), ('start',), ('connect',), ('step',), ('step',)]
            run(H, [('start',)] + ops)
            run(H, ops)
    for at in range(2):
        inp = 'the profiler is started during the broadcast'
        H.case((inp, at))
        h = History(H, lambda: inp)
        h.connect()
        h.connect()
        h.step()
        h.clients[at].during = lambda data: h.start_profiler()
        h.step()
        h.step()


def many(H):
    for _ in range(200 if H.thorough else 40):
        ops = [('connect', H.rng.choice([None, None, 3, 5, 9])) for _ in range(H.rng.randint(5, 30))]
        for _ in range(20):
            ops.append(H.rng.choice([('step',), ('step',), ('gone', H.rng.randrange(30)), ('connect', None), ('stop',)]))
        if not run(H, ops):
            return


def ends(H):
    """a loop which fails or is closed can be started again"""
    for how in ('close', 'fail', 'end'):
        inp = 'profiling ends by ' + how
        H.case(inp)
        h = History(H, lambda: inp)
        h.connect()
        h.step()
        s = h.server
        if how == 'close':
            s.loop.close()
        elif how == 'fail':
            h.inner.result = lambda: 1 // 0
            try:
                next(s.loop)
                H.fail('the failure is not passed on', inp)
            except ZeroDivisionError:
                pass
            except Exception as e:
                H.fail('raised %r' % e, inp)
            del h.inner.result
        else:
            h.disconnect(0)
            h.step()
        if how != 'end':
            h.disconnect(0)
        s.loop = None
        h.stop_profiler()
        h.connect()
        h.step()


class Big(Prof):
    def result(self):
        r = Prof.result(self)
        return r[:2] + ('y' * 400000,)


def never_reads(H):
    """a client which does not read its results does not keep the others from being served"""
    from profiling.remote.select import SelectProfilingServer
    H.case('a client which never reads')
    listener = socket.socket()
    listener.bind(('127.0.0.1', 0))
    listener.listen(5)
    prof = Big()
    server = SelectProfilingServer(listener, prof, interval=.01, log=lambda *a: None, pickle_protocol=2)
    stop = []
    t = threading.Thread(target=lambda: [server.dispatch_sockets(.05) for _ in iter(lambda: bool(stop), True)])
    t.daemon = True
    t.start()
    slow = socket.socket()
    slow.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
    slow.connect(listener.getsockname())
    H.expect(wait(lambda: prof.results > 1), 'profiling does not start', 'slow client')
    # it is dropped once its buffers are full
    H.expect(wait(lambda: not server.clients, 10), 'a client whose send fails is not dropped', 'slow client')
    H.expect(wait(lambda: not prof.running), 'the profiler still runs', 'slow client')
    stop.append(1)
    t.join(3)
    slow.close()
    listener.close()


SECTIONS = [breaking, last_leaves, short_histories, random_histories, come_meanwhile, started_already, many, ends, never_reads]
