"""C19: background profilers over the registered signal handlers."""
import itertools
import os
import pickle
import signal
import threading
import time
from profiling.profiler import Profiler, ProfilerWrapper
from profiling.remote.background import BackgroundProfiler
from profiling.sampling import SamplingProfiler
from profiling.sampling.samplers import ItimerSampler
from profiling.tracing import TracingProfiler

RULE = ('histories of start, stop, outside signals and direct starts and stops, exhaustive up to 3 operations and random up to 12, from '
        'another thread and from the main thread, over the registered signal handlers and a wrapped profiler that may fail or be slow; wrappers of '
        'all profilers: attributes, dump and viewer; distinct = different histories')


class Inner(Profiler):
    slow = 0

    def __init__(self):
        Profiler.__init__(self)
        self.calls = []
        self.fails = []
        self.where = []

    def act(self, what):
        self.calls.append('begin ' + what)
        self.where.append(threading.current_thread())
        if self.slow:
            time.sleep(self.slow)
        if self.fails and self.fails.pop(0):
            self.calls.append('end ' + what)
            raise ValueError('wrapped')
        self.calls.append('end ' + what)

    def run(self):
        self.act('start')
        yield
        self.act('stop')


class Hangs(BaseException):
    pass


def in_main(S, job, limit=5.):
    """run the job in another thread while the main thread handles signals; its outcome, or None if it hangs"""
    out = []

    def go():
        try:
            out.append((job(), None))
        except BaseException as e:
            out.append((None, e))
    t = threading.Thread(target=go)
    t.daemon = True
    t.start()
    end = time.time() + limit
    while not out and time.time() < end:
        while S.pending:
            S.pending.pop()
            try:
                S.deliver()
            except Exception:
                pass
        time.sleep(0.0002)
    if out:
        t.join()
    return out[0] if out else None


class Signals(object):
    """the signals sent; they are delivered by the harness, in the main thread (PyPy may notice a real signal only
    after a thread switch of the main thread, or never while that blocks)"""

    def __init__(self, signum, direct=False):
        self.direct = direct
        self.sent = []
        self.pending = []
        self.signum = signum

    def __enter__(self):
        self.kill = os.kill
        self.old = {s: signal.getsignal(s) for s in (signal.SIGUSR1, signal.SIGUSR2, signal.SIGWINCH)}
        me = os.getpid()

        def kill(pid, signum):
            self.sent.append((pid, signum))
            if pid == me and signum == self.signum:
                if self.direct:
                    self.deliver()
                else:
                    self.pending.append(signum)
        os.kill = kill
        return self

    def deliver(self):
        signal.getsignal(self.signum)(self.signum, None)

    def __exit__(self, *exc):
        os.kill = self.kill
        for s, h in self.old.items():
            signal.signal(s, h)


def history(H, ops, main=False, fails=(), signum=None, slow=0):
    """ops: 'start', 'stop', 'signal', 'toggle'"""
    inp = (ops, 'main thread' if main else 'background', fails, signum, slow)
    H.case(inp)
    sig = signal.SIGUSR2 if signum is None else signum
    with Signals(sig, main) as S:
        inner = Inner()
        inner.slow = slow
        before = lambda *a: None
        signal.signal(sig, before)
        bg = BackgroundProfiler(inner) if signum is None else BackgroundProfiler(inner, signum)
        H.expect(bg.prepare() is before, 'prepare() does not return the previous handler', inp)
        H.expect(signal.getsignal(sig) != before, 'prepare() does not register the handler', inp)
        running = False
        fails = list(fails)
        for i, op in enumerate(ops):
            where = 'operation %d (%s): ' % (i, op)
            del S.sent[:], inner.calls[:]
            fail = bool(fails and fails.pop(0))
            inner.fails = [fail]
            act = op
            if op == 'signal':
                try:
                    S.deliver()
                except Exception as e:
                    H.expect(fail and isinstance(e, ValueError), where + 'raised %r' % (e,), inp)
                act = 'stop' if running else 'start'
                done = True
            elif op == 'toggle':
                act = 'stop' if running else 'start'
                try:
                    getattr(inner, act)()
                except ValueError:
                    pass
                done = True
            else:
                act = op
                done = (op == 'start') != running

                def job():
                    try:
                        getattr(bg, op)()
                        return list(inner.calls), None
                    except (RuntimeError, ValueError) as e:
                        return list(inner.calls), e
                if main:
                    def alarm(*a):
                        raise Hangs()
                    old = signal.signal(signal.SIGALRM, alarm)
                    signal.alarm(10)
                    try:
                        r = (job(), None)
                    except Hangs:
                        H.fail(where + 'hangs', inp)
                        return False
                    finally:
                        signal.alarm(0)
                        signal.signal(signal.SIGALRM, old)
                else:
                    r = in_main(S, job)
                    if not H.expect(r is not None, where + 'does not return', inp):
                        bg.event.set()
                        return False
                    if not H.expect(r[1] is None, where + 'raised %r' % (r[1],), inp):
                        return False
                calls, e = r[0]
                H.equal(S.sent, [(os.getpid(), sig)] if done else [], where + 'signals sent', inp)
                H.equal(calls, ['begin ' + act, 'end ' + act] if done else [], where + 'done when it returns', inp)
                if done:
                    if not (fail and main):
                        H.expect(e is None, where + 'raised %r' % (e,), inp)
                else:
                    H.expect(isinstance(e, RuntimeError), where + 'the wrong state is not reported', inp)
            want = running if not done else (act == 'start' and not fail)
            H.equal(bg.is_running(), want, where + 'running', inp)
            H.equal(inner.is_running(), want, where + 'wrapped running', inp)
            H.expect(all(x is threading.main_thread() for x in inner.where), where + 'not in the main thread', inp)
            running = want
    return not H.failures


def short(H):
    for n in range(1, 4):
        for ops in itertools.product(['start', 'stop', 'signal', 'toggle'], repeat=n):
            for main in (False, True):
                if not H.time_left() or not history(H, ops, main):
                    return


def failing(H):
    for ops in itertools.product(['start', 'stop', 'signal'], repeat=3):
        for fails in itertools.product([False, True], repeat=3):
            for main in (False, True):
                if not H.time_left() or not history(H, ops, main, fails):
                    return


def slow(H):
    for ops in (['start', 'stop'], ['start', 'stop', 'start', 'stop'], ['toggle', 'stop', 'start'], ['start', 'signal', 'start']):
        for fails in ((), (True,), (False, True)):
            history(H, ops, False, fails, None, .03)
    history(H, ['start', 'stop'], False, (), None, 1.3)


def signums(H):
    for s in (signal.SIGUSR1, signal.SIGUSR2, signal.SIGWINCH, None):
        for ops in (['start', 'stop', 'start'], ['stop', 'start', 'signal']):
            history(H, ops, False, (), s)
    H.case('class attribute')

    class Sub(BackgroundProfiler):
        signum = signal.SIGUSR1
    H.equal(Sub(Inner()).signum, signal.SIGUSR1, 'signal of a subclass', 'class attribute')


def randomly(H):
    for _ in range(200 if H.thorough else 40):
        ops = [H.rng.choice(['start', 'stop', 'start', 'stop', 'signal', 'toggle']) for _ in range(H.rng.randint(4, 12))]
        fails = [H.rng.random() < .2 for _ in ops]
        if not H.time_left() or not history(H, ops, H.rng.random() < .5, fails):
            return


def block(H):
    """as a context manager"""
    for fail in (False, True):
        inp = 'with block, fails=%s' % fail
        H.case(inp)
        with Signals(signal.SIGUSR2) as S:
            inner = Inner()
            bg = BackgroundProfiler(inner)
            bg.prepare()
            seen = []

            def job():
                with bg as x:
                    seen.append((x is bg, inner.is_running()))
                    if fail:
                        raise KeyError('block')
            r = in_main(S, job)
            if not H.expect(r is not None, 'hangs', inp):
                bg.event.set()
                continue
            H.equal(seen, [(True, True)], 'in the block', inp)
            H.expect(isinstance(r[1], KeyError) if fail else r[1] is None, 'raised %r' % (r[1],), inp)
            H.equal(len(S.sent), 2, 'signals', inp)
            H.expect(not inner.is_running(), 'still running', inp)


def shown(H):
    """attributes, dump and viewer"""
    from profiling.viewer import StatisticsViewer
    for make, wraps in itertools.product((TracingProfiler, lambda: SamplingProfiler(sampler=ItimerSampler(.5)), Inner),
                                         ((ProfilerWrapper,), (BackgroundProfiler,), (BackgroundProfiler, ProfilerWrapper))):
        p = make()
        inp = (type(p).__name__, [w.__name__ for w in wraps])
        H.case(inp)
        w = p
        for c in wraps:
            w = c(w)
        for again in range(2):
            H.expect(w.table_class is p.table_class, 'table class', inp)
            H.expect(w.stats is p.stats, 'statistics', inp)
            H.equal(w.result()[0], p.result()[0], 'result', inp)
            H.expect(w.result()[0] is p.stats, 'statistics of the result', inp)
            H.equal(w.is_running(), p.is_running(), 'running', inp)
            if type(p) is Inner:
                p.start()
                H.expect(w.is_running(), 'not running', inp)
                H.expect(w.result()[1] >= 0 and w.result()[2] > 0 or w.result()[2] == 0, 'times', inp)
                p.stop()
            p.stats = type(p.stats)()
            p.table_class = type('Table', (p.table_class,), {})
        del p.table_class
        f = os.path.join(os.environ.get('HARNESS_TMP', '/tmp'), 'dump')
        if type(p) is not Inner:
            ok, _ = H.attempt('dump', inp, w.dump, f)
            with open(f, 'rb') as fh:
                c, r = pickle.load(fh)
            H.expect(c is type(p), 'dumped under the class %r' % c, inp)
            ok, v = H.attempt('make_viewer', inp, w.make_viewer)
            if ok:
                H.expect(isinstance(v, StatisticsViewer), 'viewer', inp)
                H.expect(type(v.table) is type(p).table_class, 'table of the viewer', inp)


SECTIONS = [short, failing, slow, signums, randomly, block, shown]
