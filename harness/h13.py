"""C13: deferral on all small histories."""
import itertools
from profiling.utils import deferral

RULE = ('all sequences of up to 4 (thorough 6) deferred calls, each succeeding or failing, block ending normally, '
        'by an exception, by return or as an abandoned generator; distinct = different history')


class Err(Exception):
    pass


def scenario(H, oks, end, argsets):
    calls = []

    def make(i, ok):
        def f(*a, **k):
            calls.append((i, a, k))
            if not ok:
                raise Err(i)
        return f
    inp = dict(succeeds=oks, block_ends=end, args=argsets)
    H.case(inp)
    early = []
    raised = None

    def block():
        with deferral() as defer:
            for i, ok in enumerate(oks):
                a, k = argsets[i % len(argsets)]
                defer(make(i, ok), *a, **k)
            early.extend(calls)
            if end == 'raise':
                raise KeyError('block')
            if end == 'return':
                return
            if end == 'exit':
                raise SystemExit(3)

    def gen():
        with deferral() as defer:
            for i, ok in enumerate(oks):
                a, k = argsets[i % len(argsets)]
                defer(make(i, ok), *a, **k)
            early.extend(calls)
            yield
    try:
        if end == 'generator':
            g = gen()
            next(g)
            g.close()
        else:
            block()
    except BaseException as e:
        raised = e
    want = [(i,) + tuple(argsets[i % len(argsets)]) for i in reversed(range(len(oks)))]
    H.equal([(i, a, k) for i, a, k in calls], want, 'deferred calls made', inp)
    H.equal(early, [], 'calls made before the block ended', inp)
    if all(oks):
        kinds = {'raise': KeyError, 'exit': SystemExit}
        H.expect(type(raised) is kinds.get(end, type(None)), 'ended with %r' % (raised,), inp)
    else:
        H.expect(isinstance(raised, Err), 'the error of a deferred call is lost, ended with %r' % (raised,), inp)
        if isinstance(raised, Err):
            H.expect(not oks[raised.args[0]], 'wrong error', inp)


def histories(H):
    argsets = [((), {}), ((1,), {}), ((1, 'x'), {'k': 2}), ((), {'a': None})]
    for n in range(0, 7 if H.thorough else 5):
        for oks in itertools.product([True, False], repeat=n):
            for end in ('normal', 'raise', 'return', 'exit', 'generator'):
                scenario(H, oks, end, argsets)


def many(H):
    for n in (50, 400):
        scenario(H, (True,) * n, 'normal', [((), {})])
        scenario(H, (True,) * n, 'raise', [((), {})])
    scenario(H, tuple(i % 7 != 3 for i in range(60)), 'normal', [((), {})])


def nested(H):
    log = []
    with deferral() as d1:
        d1(log.append, 1)
        with deferral() as d2:
            d2(log.append, 2)
            d1(log.append, 3)
            d2(log.append, 4)
        log.append('in')
    H.case('nested')
    H.equal(log, [4, 2, 'in', 3, 1], 'nested deferrals', 'd1:1 d2:2 d1:3 d2:4')


def deferring_late(H):
    """defer called with the same function and arguments repeatedly"""
    log = []
    f = log.append
    with deferral() as d:
        for _ in range(3):
            d(f, 'same')
        H.expect(log == [], 'called too early', 'same x3')
    H.case('same x3')
    H.equal(log, ['same'] * 3, 'repeated deferred call', 'same x3')


SECTIONS = [histories, many, nested, deferring_late]
