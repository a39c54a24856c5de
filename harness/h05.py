"""C05: measures of random trees against a direct computation."""
from profiling.stats import (FrozenStatistics, RecordingStatistics, Statistics, VoidRecordingStatistics)
import trees
from trees import spec, dump, CODES

RULE = ('every node of random trees (recorded with absent callers, frozen, user-defined; up to 40 nodes, and chains of 1200 and '
        '3000); each measure against the recursive definition; distinct = different tree')


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def random_trees(H):
    for inp, root in trees.samples(H):
        if not H.time_left():
            return
        H.case(inp)
        before = dump(root, lambda s: trees.recorded_values(s) + (type(s).__name__, len(s)))
        lv, want = spec(root)
        pick = range(len(lv)) if len(lv) < 100 else [0, 1, len(lv) // 2, len(lv) - 2, len(lv) - 1]
        for i in pick:
            s = lv[i][0]
            h, dh, ot, dt = want[i]
            for name, w in (('own_hits', h), ('deep_hits', dh), ('own_time', ot), ('deep_time', dt),
                            ('deep_time_per_call', dt / h if h else 0.0), ('own_time_per_call', ot / h if h else 0.0)):
                ok, r = H.attempt('%s of node %d' % (name, i), inp, getattr, s, name)
                if not ok:
                    return
                if not close(r, w):
                    H.fail('%s of node %d of %s is %r, expected %r' % (name, i, type(s).__name__, r, w),
                           dict(case=inp, tree=dump(root)[:60]))
                    return
        H.equal(dump(root, lambda s: trees.recorded_values(s) + (type(s).__name__, len(s))), before, 'reading changed the tree', inp)


def growing(H):
    """the measures follow later recordings"""
    for k in range(200):
        root = RecordingStatistics()
        for step in range(H.rng.randint(1, 12)):
            s = root
            for _ in range(H.rng.randint(0, 3)):
                s = s.ensure_child(H.rng.choice(CODES[:3]), VoidRecordingStatistics)
            s = s.ensure_child(H.rng.choice(CODES[:3]), RecordingStatistics)
            s.own_hits += H.rng.randint(0, 2)
            s.deep_time += H.rng.choice([0, .5, 2])
            H.case((k, step))
            lv, want = spec(root)
            for i, (s, _, _) in enumerate(lv):
                got = s.own_hits, s.deep_hits, s.own_time, s.deep_time
                if not all(close(a, b) for a, b in zip(got, want[i])):
                    H.fail('measures %r, expected %r' % (got, want[i]), dict(n=k, step=step, node=i, tree=dump(root)))
                    return


def absent(H):
    """an absent caller takes no hits or time itself"""
    v = VoidRecordingStatistics(CODES[0])
    H.case('absent caller')
    v.own_hits, v.deep_time = 5, 3.0
    H.equal((v.own_hits, v.deep_time, v.deep_hits, v.own_time), (0, 0, 0, 0), 'measures of an absent caller', 'setting them')
    v.ensure_child(CODES[1], RecordingStatistics).deep_time = 2.0
    H.equal((v.own_hits, v.deep_time, v.own_time), (0, 2.0, 0), 'measures of an absent caller', 'a child of 2 seconds')
    v.clear()
    H.equal((v.own_hits, v.deep_time, len(v)), (0, 0, 0), 'measures after clearing', 'clear')


def fields(H):
    """measures of hand-made nodes"""
    for hits in (0, 1, 3, 1000000007, -1):
        for t in (0.0, 1e-9, .1, 12345.678, 3):
            for subs in ((), (t / 2,), (t, t), (0,), (t * 2, .5)):
                inp = dict(hits=hits, time=t, children=subs)
                H.case(inp)
                s = FrozenStatistics('a', 'f', 1, 'm', hits, t, [FrozenStatistics('b', 'f', 2, 'm', 2, x) for x in subs])
                H.expect(close(s.own_time, max(0, t - sum(subs))) and s.own_time >= 0, 'own time %r' % (s.own_time,), inp)
                H.expect(s.deep_hits == hits + 2 * len(subs), 'deep hits %r' % (s.deep_hits,), inp)
                H.expect(close(s.deep_time_per_call, t / hits if hits else 0), 'time per call %r' % (s.deep_time_per_call,), inp)
                H.expect(close(s.own_time_per_call, s.own_time / hits if hits else 0), 'own time per call', inp)
    s = Statistics()
    H.equal((s.own_hits, s.deep_hits, s.own_time, s.deep_time, s.own_time_per_call, s.deep_time_per_call), (0, 0, 0, 0, 0, 0),
            'measures of empty statistics', 'Statistics()')


SECTIONS = [random_trees, growing, absent, fields]
