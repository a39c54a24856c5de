"""C03: elapsed times over scripted timers."""
import itertools
import sys
import time
from profiling.tracing import TracingProfiler
from profiling.tracing.timers import Timer
from frames import Frame, codes, callpath, tree, show, chain, hook_of, SPEEDUP

RULE = ('call stack walks of up to 60 events over a timer whose every reading is scripted; for each return the expected '
        'time is computed from the first and last readings of the handlers; distinct = different walk')
CODES = codes(5)


class Script(Timer):
    """Advances by scripted steps; remembers the readings of the current handler."""

    def __init__(self, step):
        self.now, self.step, self.seen = 0.0, step, []

    def __call__(self):
        self.now += self.step()
        self.seen.append(self.now)
        return self.now


def absent_time(path, want, seen):
    """sum over the nearest counted descendants"""
    below = [k for k in seen if len(k) > len(path) and k[:len(path)] == path and
             not any(k[:n] in seen for n in range(len(path) + 1, len(k)))]
    return sum(want.get(k, 0.0) for k in below)


def walk(H, events, step, inp, gap):
    H.case(inp)
    t = Script(step)
    p = TracingProfiler(timer=t)
    hook = hook_of(p)
    over = 0.0
    entered = {}
    want, seen_call = {}, set()
    for f, ev in events:
        del t.seen[:]
        t.now += gap()
        if ev == 'again':
            hook, over = hook_of(p), 0.0
            entered.clear(), want.clear(), seen_call.clear()
            continue
        ok, _ = H.attempt('event', inp, hook, f, ev, None)
        if not ok:
            return
        path = callpath(f)
        if not t.seen:
            continue
        first, last = t.seen[0], t.seen[-1]
        if ev == 'call':
            over += last - first
            entered[f.f_code, id(f)] = last - over
            if path not in seen_call:       # so far an absent caller: it keeps the time of its children
                want[path] = absent_time(path, want, seen_call)
            seen_call.add(path)
        else:
            if ev == 'return' and (f.f_code, id(f)) in entered and path in seen_call:
                e = entered.pop((f.f_code, id(f)))
                want[path] = want.get(path, 0.0) + max(0.0, first - over - e)
            over += last - first
    got = {k: v[2] for k, v in tree(p.stats).items() if v[0] == 'RecordingStatistics'}
    exp = {k: want.get(k, 0.0) for k in seen_call}
    ok = set(got) == set(exp) and all(abs(got[k] - exp[k]) < 1e-6 for k in exp)
    H.expect(ok, 'inclusive times %r, expected %r' % (show({k: (v,) for k, v in got.items()}),
                                                      show({k: (v,) for k, v in exp.items()})), inp)
    H.expect(abs(p.overhead - over) < 1e-6, 'overhead %r, expected %r' % (p.overhead, over), inp)


def random_walks(H):
    if SPEEDUP:
        return
    for k in range(3000 if H.thorough else 500):
        top, events = None, []
        for _ in range(H.rng.randint(0, 2)):
            top = Frame(CODES[H.rng.randrange(5)], top)
        for _ in range(H.rng.randint(2, 60)):
            x = H.rng.random()
            if top is None or x < .45:
                top = Frame(CODES[H.rng.randrange(5)], top)
                events.append((top, 'call'))
            elif x < .55:
                events.append((top, H.rng.choice(['c_call', 'c_return'])))
            elif x < .6:
                events.append((top, 'return'))          # a generator suspends
                events.append((top, 'call'))
            elif x < .62:
                events.append((None, 'again'))
            else:
                events.append((top, 'return'))
                top = top.f_back
                if top is not None and H.rng.random() < .05:
                    events.append((H.rng.choice(chain(top)), 'return'))
        costs = H.rng.choice([(0.0,), (1.0,), (.25, .5, 4.0), (0.0, 10.0)])
        gaps = H.rng.choice([(0.0,), (1.0, 2.0), (100.0, .5), (0.0, 0.0, 8.0)])
        rng = H.rng
        walk(H, events, lambda: rng.choice(costs), dict(n=k, events=[(repr(f), e) for f, e in events], reading_costs=costs,
                                                        gaps=gaps), lambda: rng.choice(gaps))


def small(H):
    if SPEEDUP:
        return
    a = Frame(CODES[0], None)
    b = Frame(CODES[1], a)
    c = Frame(CODES[0], b)
    moves = [(f, e) for f in (a, b, c) for e in ('call', 'return')] + [(b, 'c_call')]
    for n in range(2, 6 if H.thorough else 5):
        for seq in itertools.product(moves, repeat=n):
            if not H.time_left():
                return
            it = itertools.cycle([1.0, 2.0, 3.0, 5.0, .5])
            walk(H, seq, lambda: next(it), [(repr(f), e) for f, e in seq], lambda: 7.0)


def results(H):
    """the CPU time of a result"""
    for base in (0.0, 1.0, 5.0):
        for over in (0.0, .5, 3.0, 100.0):
            inp = dict(cpu=base, overhead=over)
            H.case(inp)
            saved = time.clock
            try:
                now = [10.0]
                time.clock = lambda: now[0]
                p = TracingProfiler(timer=Script(lambda: 0.0))
                hook_of(p)
                p.overhead = over
                now[0] += base
                ok, r = H.attempt('result', inp, p.result)
            finally:
                time.clock = saved
            if ok:
                H.expect(abs(r[1] - max(0, base - over)) < 1e-9, 'CPU time %r' % (r[1],), inp)
    if SPEEDUP:
        return
    for cost in (0.0, 1.0, 2.5):
        inp = dict(cost_of_a_reading=cost)
        H.case(inp)
        saved = time.clock
        t = Script(lambda: cost)
        try:
            time.clock = lambda: t.now
            p = TracingProfiler(timer=t)
            hook = hook_of(p)
            t.now = 0.0
            hook = hook_of(p)
            start = t.now
            f, spent = Frame(CODES[0], None), 0.0
            for ev in ('call', 'return', 'call', 'c_call', 'return'):
                t.now += 10.0
                del t.seen[:]
                hook(f, ev, None)
                if t.seen:
                    spent += t.seen[-1] - t.seen[0]
            ok, r = H.attempt('result', inp, p.result)
            if ok:
                want = max(0, t.now - start - spent)
                H.expect(abs(r[1] - want) < 1e-6, 'CPU time %r, expected %r' % (r[1], want), inp)
        finally:
            time.clock = saved


def restarted(H):
    """entries and overhead of an earlier run do not matter"""
    if SPEEDUP:
        return
    t = Script(lambda: 1.0)
    p = TracingProfiler(timer=t)
    hook = hook_of(p)
    f = Frame(CODES[0], None)
    hook(f, 'call', None)
    hook2 = hook_of(p)
    H.case('restart')
    H.equal(p.overhead, 0.0, 'overhead after a restart', 'call, restart')
    g = Frame(CODES[0], None)
    hook2(f, 'return', None)
    H.equal({k: v[2] for k, v in tree(p.stats).items() if v[2]}, {}, 'times after the return of an old entry', 'call, restart, return')
    hook2(g, 'call', None)
    hook2(f, 'return', None)
    H.equal({k: v[2] for k, v in tree(p.stats).items() if v[2]}, {}, 'times after the return of an old entry',
            'call, restart, call of another frame, return of the first')


SECTIONS = [small, random_walks, results, restarted]
