"""C15: the per-thread sampler.

For an arbitrary thread KAPPA with last(KAPPA) the thread time of its last sample (0 when never sampled), at an event of thread
TAU at its thread clock t, in any state of the sampler:
    ensures  exactly one sample of exactly the frame of the event  iff  t - last(TAU) >= interval;  else none
             last'(KAPPA) == t if KAPPA is TAU and it was sampled, else last(KAPPA), unless KAPPA was forgotten
             KAPPA is forgotten only by the clean-up and only if it is not a living thread
             the clean-up comes at the latest every 10000 samples and forgets every thread that does not live
    loop invariant of the clean-up: a visited thread is kept iff it lives;  the others are as before
"""
from .common import *
from .process import Process

SAMPLED = '''
def main(sample):
    class P(object):
        def sample(self, frame):
            sample(self, frame)
    return P
'''
PERIOD = 10000


class Setting(object):
    def __init__(self, path):
        self.path = path
        self.P = Process(path, faults=False)
        self.samples = []
        self.profiler = path.interp.call(call(path, program(path, SAMPLED), Builtin(
            'sample', lambda I, a, k: self.sample(a[1]))), [], {})
        self.interval = path.fresh('interval', REAL)
        path.add(self.interval > 0)
        self.sampler = new(path, 'profiling.sampling.samplers:TracingSampler', SV('real', self.interval))
        self.now = self.tid = None
        self.living = path.new_map('int', 'any', 'living')
        model(path, 'time.clock_gettime', self.clock)
        model(path, 'time.CLOCK_THREAD_CPUTIME_ID@', lambda p: 3)
        model(path, '_thread.get_ident', lambda p, a, kw: SV('int', self.tid))
        self.cleaned = 0
        self.times = None
        model(path, 'sys._current_frames', self.current_frames)
        path.interp.candidates = self.candidates
        path.on_map = self.on_map
        self.watched = []

    def sample(self, frame):
        """the sample itself takes some time of the thread"""
        self.samples.append(frame)
        self.now, before = self.path.fresh('later', REAL), self.now
        self.path.add(self.now >= before)

    def current_frames(self, path, args, kwargs):
        self.cleaned += 1
        d = dict_of(self.sampler, 'sampled_times')
        self.times = d and d.d['c']
        d = PyDict()
        path.write(d, 'c', DictC(self.living))
        return d

    def clock(self, path, args, kwargs):
        path.check('the clock is that of the thread', eq(path, args[0], 3))
        return SV('real', self.now)

    def on_map(self, m):
        """The keys of a dictionary are pairwise different."""
        for k in self.watched:
            n = Sum('is kappa', lambda v, k=k: z3.If(self.path.num(v) == k, 1, 0), INT, True).eval(self.path, (Var(m.keys),))
            self.path.add(n == z3.If(zb(m.present(SV('int', k))), 1, 0))

    def alive(self, t):
        return zb(self.living.present(SV('int', t)))

    def start(self):
        call(self.path, get(self.path, self.sampler, 'start'), self.profiler)
        return self.P.get('sys')

    def event(self, h, tid, now):
        """an event; whether it was sampled"""
        path = self.path
        frame = ref(path, FRAME, 'frame')
        self.tid, self.now = tid, now
        self.samples = []
        events = ('call', 'return', 'c_call')
        r, e = attempt(path, lambda: call(path, h, frame, events[path.choose(3, 'event')] if self.one else 'call', None))
        if is_exc(path, e, 'KeyError') and self.watched and len(e.d['args']) == 1 and path.kind_of(e.d['args'][0]) == 'int':
            path.assume(num(path, e.d['args'][0]) == self.watched[0])       # kappa is any thread: the one that is missing
        path.check('an event does not fail', e is None)
        if e is not None:
            raise PathEnd()
        path.check('at most one sample', len(self.samples) <= 1)
        if self.samples:
            path.check('the frame of the event is sampled', eq(path, self.samples[0], frame))
        return bool(self.samples)

    one = False

    def candidates(self, lv):
        path = self.path
        for k in self.watched:
            key = SV('int', k)
            met = Sum('is kappa', lambda v, k=k: z3.If(path.num(v[0] if isinstance(v, tuple) else v) == k, 1, 0), INT, True)
            if lv.is_for:
                for q, s, s0, kind in lv.seq_locs():
                    if kind in ('int', 'bottom'):
                        for what, cond in (('dead', z3.Not(self.alive(k))), ('living', self.alive(k))):
                            yield ('%s has kappa as often as it was visited if it is %s' % (q, what), lambda s=s, s0=s0, cond=cond:
                                   met.eval(path, s()) == met.eval(path, s0()) + z3.If(cond, met.eval(path, lv.P), 0))
            for loc in lv.maps():
                has = lambda loc=loc: zb(lib.dict_has(path.interp, lv.val(loc), key))
                had = lambda loc=loc: zb(lib.dict_has(path.interp, lv.entry(loc), key))
                if lv.is_for:
                    yield ('%s has kappa iff it did and it was not visited' % lv.label(loc), lambda has=has, had=had: has() == z3.And(
                        had(), met.eval(path, lv.P) == 0))
                    yield ('%s has kappa iff it did and it lives or was not visited' % lv.label(loc), lambda has=has, had=had: has() == z3.And(
                        had(), z3.Or(self.alive(k), met.eval(path, lv.P) == 0)))
                if lv.is_for:
                    yield ('the keys to come are in %s' % lv.label(loc), lambda loc=loc: (
                        'indexed', lv.R, lambda i, v, c=lv.val(loc): zb(lib.dict_has(path.interp, c, v))))
                if lv.is_for and self.times is not None:
                    # the dictionary is made anew
                    yield ('%s has kappa iff it lives and was visited' % lv.label(loc), lambda has=has: has() == z3.And(
                        self.alive(k), met.eval(path, lv.P) > 0))
                    yield ('the time of kappa in %s is the old one' % lv.label(loc), lambda loc=loc, has=has: z3.Implies(
                        has(), z3.And(zb(lib.dict_has(path.interp, self.times, key)), lib.dict_num(path.interp, lv.val(loc), key) ==
                                      lib.dict_num(path.interp, self.times, key))))
                yield ('the time of kappa in %s stays' % lv.label(loc), lambda loc=loc, has=has: z3.Implies(
                    has(), lib.dict_num(path.interp, lv.val(loc), key) == lib.dict_num(path.interp, lv.entry(loc), key)))


def get_in(path, c, key):
    return lib.dict_get(path.interp, c, key)


def arbitrary(S, tau, kappa):
    """any state: (last(tau), last(kappa)) and the number of samples so far"""
    path = S.path
    d = dict_of(S.sampler, 'sampled_times')
    if d is None or not isinstance(S.sampler.d.get('counter'), int):
        raise Unsupported('the times are not in a dictionary named sampled_times, with a number named counter')
    path.write(d, 'c', DictC(path.new_map('int', 'real', 'times')))
    path.interp.setattr(S.sampler, 'counter', SV('int', path.fresh('counter', INT)))
    path.add(num(path, get(path, S.sampler, 'counter')) >= 0)
    return d


def last(path, d, tid):
    v = lib.dict_get(path.interp, d, SV('int', tid))
    return num(path, v)


def any_event(which):
    """kappa is the thread of the event / another one"""
    def run(path):
        S = Setting(path)
        S.one = which == 'same'
        h = S.start()
        tau = path.fresh('tau', INT)
        kappa = tau if which == 'same' else path.fresh('kappa', INT)
        if which != 'same':
            path.add(kappa != tau)
        S.watched = [kappa]
        d = arbitrary(S, tau, kappa)
        keyt, keyk = SV('int', tau), SV('int', kappa)
        path.add(S.alive(tau))      # an event comes from a living thread
        knew_t = path.decide(zb(lib.dict_has(path.interp, d.d['c'], keyt)))
        last_t = path.num(lib.dict_get(path.interp, d, keyt)) if knew_t else z3.RealVal(0)
        if which == 'same':
            knew_k, last_k = knew_t, last_t
        else:
            knew_k = path.decide(zb(lib.dict_has(path.interp, d.d['c'], keyk)))
            last_k = path.num(lib.dict_get(path.interp, d, keyk)) if knew_k else z3.RealVal(0)
        counter = num(path, get(path, S.sampler, 'counter'))
        now = path.fresh('now', REAL)
        sampled = S.event(h, tau, now)
        path.check('sampled iff the interval has passed', z3.BoolVal(sampled) == (now - last_t >= S.interval))
        d = dict_of(S.sampler, 'sampled_times')
        if d is None:
            raise Unsupported('sampled_times is not a dictionary any more')
        knows = zb(lib.dict_has(path.interp, d.d['c'], keyk))
        kept = path.decide(knows)
        after = path.num(lib.dict_get(path.interp, d, keyk)) if kept else z3.RealVal(0)
        if which == 'same' and sampled:
            path.check('the time of the sample is remembered', z3.And(z3.BoolVal(kept), after == now))
        elif kept:
            path.check('the last sample of a thread is unchanged', z3.And(after == last_k))
        elif knew_k:
            path.check('only dead threads are forgotten', z3.Not(S.alive(kappa)))
            path.check('only after a sample', sampled)
        if not sampled:
            path.check('without a sample nothing is cleaned up', S.cleaned == 0)
        count = num(path, get(path, S.sampler, 'counter'))
        path.check('samples are counted', count == counter + (1 if sampled else 0))
        if S.cleaned:
            path.check('a clean-up forgets every dead thread', z3.Implies(z3.Not(S.alive(kappa)), z3.BoolVal(not kept)))
            path.cover('cleaned up')
        elif sampled:
            path.check('a clean-up comes every %d samples' % PERIOD, count % PERIOD != 0)
        path.cover('sampled' if sampled else 'not sampled')
    return run


contract('C15', 'an event of the thread, any state', ['profiling.sampling.samplers'])(any_event('same'))
contract('C15', 'an event of another thread, any state', ['profiling.sampling.samplers'])(any_event('other'))


def from_start(n):
    """the first events, over the hooks alone"""
    def run(path):
        S = Setting(path)
        h = S.start()
        last = []           # (thread, time) of the samples
        for i in range(n):
            tid = path.fresh('thread', INT)
            now = path.fresh('now', REAL)
            path.add(S.alive(tid))
            S.watched = [tid]
            prev = z3.RealVal(0)
            for t, at in last:
                prev = z3.If(t == tid, at, prev)
            sampled = S.event(h, tid, now)
            path.check('event %d is sampled iff the interval has passed' % i, z3.BoolVal(sampled) == (now - prev >= S.interval))
            if sampled:
                last.append((tid, now))
            if i == 1:      # a stop and a start forget nothing
                call(path, get(path, S.sampler, 'stop'))
                h = S.start()
        path.cover('events')
    return run


contract('C15', 'the first events', ['profiling.sampling.samplers'])(from_start(3))

ASSUMPTIONS = ['thread ids are not reused between a sample and the clean-up', 'events come from living threads',
               'the thread clock starts at zero; its readings are arbitrary', 'sys._current_frames() has exactly the living threads']
