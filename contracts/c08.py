"""C08: walking a tree visits each descendant exactly once, level by level.

Contract of spread_stats(root), with `out` the nodes yielded so far:
    loop invariant  out ++ queue == children(root) ++ the children of the nodes of out, one node after the other
                    (selective: of those nodes of out that the consumer asked to spread)
                    number of nodes yielded + number of nodes at and below the queued ones == number of descendants
    ensures         out == children(root) ++ the children of the (spread) nodes of out;  len(out) == number of descendants
The equation has one solution over a finite tree: its levels, one after the other.
"""
from .tree import *

FLAT = 'profiling.stats:FlatFrozenStatistics'
chosen_f = uf('asks to spread', U, B)
snoc = Fold('list', lambda s, v: U.cons(v.t, s))

ALL = '''
def main(walk, root, visit):
    for node in walk(root):
        visit(node)
'''
SELECT = '''
def main(walk, root, visit, wants):
    for node, spread in walk(root, spreader=True):
        visit(node)
        if wants(node):
            spread()
            spread()
'''


def setting(path, qual, selective):
    forest(path)
    path.counted = not selective
    s, cs = root(path, qual)
    out = GhostTrace(path, 'out')
    below = FlatMap('spread', lambda path, v: children(path, v.t) if not selective or path.decide(chosen_f(v.t)) else (), lambda u: AbsRef(STAT, u))
    enc = lambda *seqs: enc_(U.nil, seqs)

    def enc_(acc, seqs):
        for q in seqs:
            acc = snoc.eval(path, acc, q)
        return acc

    def visit(I, a, k):
        path.check('a statistics node is yielded', len(a) == 1 and isinstance(a[0], AbsRef) and a[0].kind is STAT)
        if not isinstance(a[0], AbsRef):
            raise PathEnd()
        out.add(a[0])

    def nodes(q):
        # the nodes of a queue, where each node met counts itself and what is below it
        for part in path.norm(out.seq) + path.norm(q):
            if isinstance(part, Unit):
                path.add(N_f(part.v.t) == 1 + SumN.eval(path, children(path, part.v.t)))
        return SumN.eval(path, q)

    def candidates(lv):
        if lv.is_for:
            for q, s, s0, k in lv.seq_locs():
                yield ('%s got P' % q, lambda s=s, s0=s0: ('seqeq', s(), s0() + lv.P))
                if not selective:
                    yield ('%s got the descendants of P' % q, lambda s=s, s0=s0:
                           path.length(lv.P) + SumN.eval(path, s()) == SumN.eval(path, s0()) + SumN.eval(path, lv.P))
                yield ('%s got the children of P' % q, lambda s=s, s0=s0: ('seqeq', s(), s0() + below.eval(path, lv.P)))
        for c in counters(lv):
            yield c
        queues = [x for x in waiting(lv) if '.out' not in x[0]]
        if lv.is_for:
            # a level of nodes is walked, their children make the next one
            for q, s, s0 in queues:
                yield ('out got P, %s their children' % q, lambda s=s, s0=s0: enc(out.seq, lv.R, s()) == enc(
                    cs, below.eval(path, out.seq)))
                if not selective:
                    yield ('nodes visited and nodes left in %s and at hand are constant' % q, lambda s=s:
                           path.length(out.seq) + SumN.eval(path, lv.R) + SumN.eval(path, s()) == SumN.eval(path, cs))
        for q, s, s0 in queues:
            yield ('out + %s == children of the root and of those in out' % q, lambda s=s:
                   enc(out.seq, s()) == enc(cs, below.eval(path, out.seq)))
            if not selective:
                yield ('nodes visited and nodes left in %s are constant' % q, lambda s=s:
                       path.length(out.seq) + nodes(s()) == SumN.eval(path, cs))
    path.interp.candidates = candidates
    return s, cs, out, Builtin('visit', visit), lambda: enc(out.seq) == enc(cs, below.eval(path, out.seq))


def walk(qual, selective):
    def run(path):
        s, cs, out, visit, complete = setting(path, qual, selective)
        snap = Snapshot(path, s)
        f = cls(path, 'profiling.stats:spread_stats')
        args = [f, s, visit]
        if selective:
            args.append(Builtin('wants', lambda I, a, k: SV('bool', chosen_f(a[0].t))))
        r, e = attempt(path, lambda: call(path, program(path, SELECT if selective else ALL), *args))
        path.check('the walk does not fail', e is None)
        if e is not None:
            return
        path.check('every child of the node and of the nodes %s is yielded, level by level, exactly once' % (
            'asked to spread' if selective else 'yielded'), complete())
        if not selective:
            path.check('as many nodes are yielded as there are descendants', path.length(out.seq) == SumN.eval(path, cs))
        path.check('the tree is not changed', snap.unchanged())
        path.cover('walked')
        path.cover('none') if path.must(path.length(cs) == 0) else None
    return run


for _q in (STATS, REC, VOID, FROZEN, FLAT):
    for _s in (False, True):
        contract('C08', '%s, %s' % (_q.split(':')[1], 'selective' if _s else 'all descendants'), ['profiling.stats'])(walk(_q, _s))

ASSUMPTIONS = ['trees of statistics are finite and no node is reached twice',
               'whether a consumer spreads a node is an arbitrary function of the node; it decides before it takes the next one']
