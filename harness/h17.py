"""C17: greetings and removals."""
import errno
import itertools
import os
import shutil
import socket
import tempfile
import threading
import time
from profiling.remote import recv_msg
from profiling.__about__ import __version__
from servers import *

RULE = ('histories of connections (working, breaking at each message with and without a report in the meantime), disconnections, '
        'repeated reports, cycles, over pickle protocols and 0-4 wrapped profilers; the select, gevent and asyncio servers over '
        'socket pairs or loopback; distinct = different histories')


def run(H, ops, depth=0, protocol=2):
    inp = dict(events=ops, wrapped=depth, protocol=protocol)
    H.case(inp)
    h = History(H, lambda: inp, depth, protocol)
    for op in ops:
        if op[0] == 'connect':
            h.connect(*op[1:])
        elif op[0] == 'gone':
            h.disconnect(op[1] % max(1, len(h.clients))) if h.clients else None
        elif op[0] == 'step':
            h.step()
        elif op[0] == 'stop':
            h.stop_profiler()
        elif op[0] == 'start':
            h.start_profiler()
        if not h.ok:
            return False
    return True


def greetings(H):
    for depth in range(5):
        for protocol in range(5):
            for before in ([], [('connect',), ('step',)], [('connect',), ('step',), ('step',)],
                           [('connect',), ('step',), ('gone', 0), ('step',)], [('connect',), ('gone', 0)]):
                for fail in [(None,)] + [(k, r) for k in range(4) for r in (False, True)]:
                    run(H, before + [('connect',) + fail, ('gone', len(before) and 1), ('gone', len(before) and 1), ('connect',)], depth, protocol)


def short_histories(H):
    alphabet = [('connect',), ('connect', 1), ('connect', 2, True), ('gone', 0), ('gone', 1), ('step',)]
    for n in range(1, 6 if H.thorough else 5):
        for ops in itertools.product(alphabet, repeat=n):
            if ops[0][0] != 'connect':
                continue
            if not H.time_left():
                return
            if not run(H, list(ops), 1, 2):
                return


def random_histories(H):
    for _ in range(2000 if H.thorough else 300):
        ops = []
        for _ in range(H.rng.randint(5, 40)):
            k = H.rng.random()
            if k < .35:
                ops.append(('connect', H.rng.choice([None, None, None, 0, 1, 2, 3, 5]), H.rng.random() < .5))
            elif k < .65:
                ops.append(('gone', H.rng.randrange(12)))
            elif k < .95:
                ops.append(('step',))
            else:
                ops.append(('stop',))
        if not run(H, ops, H.rng.randrange(3), H.rng.randrange(5)):
            return


# the servers themselves

def check_greeting(H, inp, sock, inner, protocol, latest):
    ok, r = H.attempt('receiving the welcome', inp, recv_msg, sock)
    if not ok or not H.equal(tuple(r), (WELCOME, (protocol, __version__)), 'welcome', inp):
        return False
    ok, r = H.attempt('receiving the profiler', inp, recv_msg, sock)
    if not ok or not H.equal(tuple(r), (PROFILER, inner), 'profiler', inp):
        return False
    if latest:
        ok, r = H.attempt('receiving the latest result', inp, recv_msg, sock)
        return ok and H.equal(r[0], RESULT, 'a result', inp)
    return True


def wait(cond, t=5):
    end = time.time() + t
    while time.time() < end:
        if cond():
            return True
        time.sleep(.005)
    return cond()


def select_server(H):
    from profiling.remote.select import SelectProfilingServer
    listener = socket.socket()
    listener.bind(('127.0.0.1', 0))
    listener.listen(5)
    prof = Prof()
    server = SelectProfilingServer(listener, Wrap(prof), interval=.02, log=lambda *a: None, pickle_protocol=2)
    stop = []
    errors = []

    def serve():
        try:
            while not stop:
                server.dispatch_sockets(.05)
        except Exception as e:
            errors.append('%s: %s' % (type(e).__name__, e))
    t = threading.Thread(target=serve)
    t.daemon = True
    t.start()
    inp = 'select server'
    clients_of(H, inp, server, prof, lambda: socket.create_connection(listener.getsockname(), 5))
    stop.append(1)
    t.join(5)
    H.expect(not errors, 'the server died: %r' % errors, inp)
    listener.close()


def clients_of(H, inp, server, prof, connect):
    """first client, second with the latest result, a reset one, and again after the last has left"""
    import struct
    for round_ in range(2):
        H.case((inp, round_))
        a = connect()
        a.settimeout(5)
        if not check_greeting(H, inp, a, Prof, 2, round_ > 0):
            return
        ok, r = H.attempt('receiving a result', inp, recv_msg, a)
        if not ok:
            return
        b = connect()
        b.settimeout(5)
        if not check_greeting(H, inp, b, Prof, 2, True):
            return
        if not H.expect(wait(lambda: len(server.clients) == 2), '%d clients instead of 2' % len(server.clients), inp):
            return
        c = connect()
        c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        c.close()       # reset, perhaps during its greeting
        a.close()
        H.expect(wait(lambda: len(server.clients) == 1), 'the closed client stays', inp)
        ok, r = H.attempt('receiving after another one has gone', inp, recv_msg, b)
        b.close()
        H.expect(wait(lambda: not server.clients and not server._profiling), 'clients stay: %r' % len(server.clients), inp)
        H.expect(wait(lambda: not prof.running), 'the profiler still runs', inp)


def asyncio_server(H):
    import asyncio
    from profiling.remote.asyncio import AsyncIOProfilingServer
    loop = asyncio.new_event_loop()
    prof = Prof()
    box = {}

    def serve():
        asyncio.set_event_loop(loop)
        server = AsyncIOProfilingServer(Wrap(prof), interval=.02, log=lambda *a: None, pickle_protocol=2)
        s = loop.run_until_complete(asyncio.start_server(server, '127.0.0.1', 0))
        box['addr'] = s.sockets[0].getsockname()
        box['server'] = server
        loop.run_forever()
    t = threading.Thread(target=serve)
    t.daemon = True
    t.start()
    if not wait(lambda: 'server' in box):
        H.fail('the server did not start', 'asyncio server')
        return
    clients_of(H, 'asyncio server', box['server'], prof, lambda: socket.create_connection(box['addr'], 5))
    loop.call_soon_threadsafe(loop.stop)
    t.join(5)


def gevent_server(H):
    import gevent
    from profiling.remote.gevent import GeventProfilingServer
    prof = Prof()
    box = {}
    done = threading.Event()

    def serve():
        import gevent.socket
        listener = gevent.socket.socket()
        listener.bind(('127.0.0.1', 0))
        listener.listen(5)
        server = GeventProfilingServer(listener, Wrap(prof), interval=.02, log=lambda *a: None, pickle_protocol=2)
        server.start()
        box['addr'] = listener.getsockname()
        box['server'] = server
        while not done.is_set():
            gevent.sleep(.01)
        server.stop(timeout=1)
    t = threading.Thread(target=serve)
    t.daemon = True
    t.start()
    if not wait(lambda: 'server' in box):
        H.fail('the server did not start', 'gevent server')
        return
    clients_of(H, 'gevent server', box['server'], prof, lambda: socket.create_connection(box['addr'], 5))
    done.set()
    t.join(5)


SECTIONS = [greetings, short_histories, random_histories, select_server, asyncio_server, gevent_server]
