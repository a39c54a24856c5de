"""C05: derived measures follow from the recorded ones.

    deep_hits  ensures  result == own_hits + sum of D over the children, nothing changes
               (loop: sum of the hits taken so far + D over the nodes still queued is constant)
    own_time   ensures  result == max(0, deep_time - sum of T over the children)
    *_per_call ensures  result == time / own_hits if own_hits else 0
    VoidRecordingStatistics: own_hits == 0, deep_time == sum of T over the children
               (loop: sum of the times taken so far + T over the nodes still queued is constant)
for a node of each class over any children; children are opaque nodes whose measures satisfy the same equations.
"""
from .tree import *

KINDS = [STATS, REC, VOID, FROZEN]


def setting(path, qual):
    forest(path)
    s, cs = root(path, qual)
    path.interp.candidates = conserved
    return s, cs, Snapshot(path, s)


def read(path, s, name, snap):
    r, e = attempt(path, lambda: get(path, s, name))
    path.check('reading %s does not fail' % name, e is None)
    if e is not None:
        raise PathEnd()
    path.check('reading %s changes nothing' % name, snap.unchanged())
    r2 = get(path, s, name)
    path.check('reading %s again gives the same' % name, eq(path, r, r2))
    return num(path, r)


def real(t):
    return z3.ToReal(t) if z3.is_int(t) else t


def deep_time_of(path, s, cs, qual):
    """What the inclusive time must be."""
    return SumT.eval(path, cs) if qual == VOID else real(num(path, get(path, s, 'deep_time')))


def hits(qual):
    def run(path):
        s, cs, snap = setting(path, qual)
        own = num(path, get(path, s, 'own_hits'))
        if qual == VOID:
            path.check('an absent caller has no own hits', own == 0)
            path.interp.setattr(s, 'own_hits', 1)
            path.check('nor can it get any', eq(path, get(path, s, 'own_hits'), 0))
        r = read(path, s, 'deep_hits', snap)
        path.check('own hits plus those of all descendants', r == own + SumD.eval(path, cs))
        path.cover('read')
    return run


def times(qual):
    def run(path):
        s, cs, snap = setting(path, qual)
        t = read(path, s, 'deep_time', snap)
        sub = SumT.eval(path, cs)
        if qual == VOID:
            path.check('the time of an absent caller is that of its children', real(t) == sub)
        want = real(t) - sub
        path.assume(z3.BoolVal(True))
        o = read(path, s, 'own_time', snap)
        path.check('inclusive time without that of the children, not negative', real(o) == z3.If(want > 0, want, 0))
        path.cover('read')
    return run


def per_call(qual):
    def run(path):
        s, cs, snap = setting(path, qual)
        own = real(num(path, get(path, s, 'own_hits')))
        for name in ('deep_time', 'own_time'):
            t = real(num(path, get(path, s, name)))
            r = read(path, s, name + '_per_call', snap)
            path.check('%s per own hit' % name, z3.If(own == 0, real(r) == 0, real(r) * own == t))
        path.cover('read')
    return run


for _q in KINDS:
    _n = _q.split(':')[1]
    contract('C05', '%s.deep_hits' % _n, ['profiling.stats'])(hits(_q))
    contract('C05', '%s.own_time, deep_time' % _n, ['profiling.stats'])(times(_q))
    contract('C05', '%s per call' % _n, ['profiling.stats'])(per_call(_q))

ASSUMPTIONS = ['trees of statistics are finite and no node is reached twice',
               'the nodes below the one looked at satisfy the same contracts (induction over the height of the tree)']
