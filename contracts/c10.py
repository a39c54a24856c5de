"""C10: sort keys and sorted children.

For a statistics of each class with any measures and names, and each key K:
    K(a) < K(b)  iff  a comes before b in the documented order      (never an error)
    (~K)(a) < (~K)(b)  iff  K(b) < K(a)
    Statistics.sorted(order)  ensures  result == the built-in sort of exactly the children by an equivalent of order, ascending
The built-in sort is trusted: given any iterable and a key it returns a permutation in ascending order of the key.
"""
from .tree import *

KINDS = {'Statistics': STATS, 'FrozenStatistics': FROZEN, 'RecordingStatistics': REC, 'VoidRecordingStatistics': VOID,
         'FlatFrozenStatistics': 'profiling.stats:FlatFrozenStatistics'}
MODULE = Kind('module', {'__name__': 'str'})
MODULE.truth = lambda I, o: True


def node(path, qual, name):
    """A node of the class: any names, which may be missing, and any measures."""
    n = qual.split(':')[1]
    if n in ('RecordingStatistics', 'VoidRecordingStatistics'):
        s = root(path, qual, name)[0]
        path.add(num(path, get(path, s, 'own_hits')) >= 0)
        return s
    args = [path.fresh_value(('opt', 'str'), name + f) for f in ('name', 'file')] + [path.fresh_value(('opt', 'int'), name + 'line'),
                                                                                 path.fresh_value(('opt', 'str'), name + 'module')]
    hits, time = SV('int', path.fresh(name + 'hits', INT)), SV('real', path.fresh(name + 'time', REAL))
    path.add(z3.And(hits.t >= 0, time.t >= 0))
    if n == 'FlatFrozenStatistics':
        deep = SV('int', path.fresh(name + 'deep', INT))
        path.add(deep.t >= hits.t)
        return new(path, qual, *(args + [hits, deep, SV('real', path.fresh(name + 'own', REAL)), time]))
    s = new(path, qual, *(args + [hits, time]))
    if n == 'FrozenStatistics':
        path.interp.setattr(s, 'children', PyList((Var(path.new_seq(('ref', STAT), name + ' children')),)))
    return s


def real(t):
    t = z3.RealVal(t) if isinstance(t, (int, float)) else t
    return z3.ToReal(t) if z3.is_int(t) else t


class Node(object):
    def __init__(self, path, s):
        self.path, self.s = path, s

    def __getattr__(self, f):
        v = self.text(f) if f in ('name', 'module') else real(num(self.path, get(self.path, self.s, f)))
        setattr(self, f, v)
        return v

    def text(self, f):
        """the rank of a text; a missing one is first, like the empty one"""
        v = get(self.path, self.s, f)
        if v is None:
            return z3.RealVal(0)
        if isinstance(v, Opt):
            return z3.If(v.cond, z3.RealVal(0), lib.str_rank(self.path.interp, v.val))
        return lib.str_rank(self.path.interp, v)


def desc(f):
    return lambda a, b: getattr(a, f) > getattr(b, f)


def asc(f):
    return lambda a, b: getattr(a, f) < getattr(b, f)


def then(f, g, *key):
    """f decides; g where the values of `key` are equal"""
    return lambda a, b: z3.Or(f(a, b), z3.And(*([getattr(a, k) == getattr(b, k) for k in key] + [g(a, b)])))


EXACT = {'by_name': asc('name'), 'by_module': asc('module'), 'by_function': then(asc('module'), asc('name'), 'module'),
         'by_deep_hits': desc('deep_hits'), 'by_own_hits': desc('own_hits'), 'by_deep_time': desc('deep_time'),
         'by_own_time': then(desc('own_time'), desc('deep_time'), 'own_time')}
PER_CALL = {'by_deep_time_per_call': 'deep_time_per_call', 'by_own_time_per_call': 'own_time_per_call'}


def by_contract(path):
    """Callees of the keys by their contracts (property C05)."""
    kids = lambda s: seq_of(path, call(path, get(path, s, '__iter__')))
    M = path.interp.models

    def own_time(path, args, kwargs):
        s = args[0]
        d = real(num(path, get(path, s, 'deep_time'))) - SumT.eval(path, kids(s))
        return SV('real', z3.If(d > 0, d, 0))

    def deep_hits(path, args, kwargs):
        s = args[0]
        below = SumD.eval(path, kids(s))
        path.add(below >= 0)        # hits are counts
        return SV('int', num(path, get(path, s, 'own_hits')) + below)
    M['profiling.stats:Statistics.deep_hits'] = deep_hits
    M['profiling.stats:Statistics.own_time'] = own_time
    M['profiling.stats:VoidRecordingStatistics.deep_time'] = lambda path, args, kwargs: SV('real', SumT.eval(path, kids(args[0])))


def less(path, x, y):
    return zb(lib.term(path.interp, lib.lt_term(path.interp, x, y)))


def key_contract(name, qa, qb):
    def run(path):
        forest(path)
        by_contract(path)
        mods = [path.fresh_value(('opt', ('ref', MODULE)), 'module') for _ in range(2)]
        codes = {}

        def getmodule(path, args, kwargs):
            k = str(path.to_u(args[0]))
            codes.setdefault(k, mods[len(codes) % 2])
            return codes[k]
        path.interp.ext_models['inspect.getmodule'] = getmodule
        a, b = node(path, KINDS[qa], 'a'), node(path, KINDS[qb], 'b')
        K = cls(path, 'profiling.sortkeys:' + name)
        snap = Snapshot(path, a, b)
        vals = []
        for s in (a, b):
            v, e = attempt(path, lambda s=s: call(path, K, s))
            path.check('the key of any statistics exists', e is None)
            if e is not None:
                return
            vals.append(v)
        A, Bn = Node(path, a), Node(path, b)
        lt, e = attempt(path, lambda: less(path, vals[0], vals[1]))
        path.check('any two statistics can be compared', e is None)
        gt, e2 = attempt(path, lambda: less(path, vals[1], vals[0]))
        path.check('any two statistics can be compared the other way round', e2 is None)
        if e is not None or e2 is not None:
            return
        if name in EXACT:
            path.check('%s is before exactly when documented' % name, lt == EXACT[name](A, Bn))
        else:
            f = PER_CALL[name]
            called = z3.And(A.own_hits > 0, Bn.own_hits > 0)
            path.check('more time per call comes first', z3.Implies(z3.And(called, desc(f)(A, Bn)), lt))
            if f == 'deep_time_per_call':
                path.check('and only that', z3.Implies(z3.And(called, lt), desc(f)(A, Bn)))
            else:
                path.check('and else at least the inclusive time per call', z3.Implies(z3.And(called, lt), then(
                    desc(f), desc('deep_time_per_call'), f)(A, Bn)))
            path.check('never both before each other', z3.Not(z3.And(lt, gt)))
        inv = path.interp.unop(ast.Invert(), K) if hasattr(path.interp, 'unop') else call(path, get(path, K, '__invert__'))
        ivals = []
        for s in (a, b):
            v, e = attempt(path, lambda s=s: call(path, inv, s))
            path.check('the inverted key of any statistics exists', e is None)
            if e is not None:
                return
            ivals.append(v)
        ilt, e = attempt(path, lambda: less(path, ivals[0], ivals[1]))
        path.check('any two statistics can be compared by the inverted key', e is None)
        if e is None:
            path.check('the inverted key gives the opposite order', ilt == gt)
        path.check('comparing changes nothing', snap.unchanged())
        path.check('the key itself is not inverted', eq(path, call(path, K, a), vals[0]))
        path.cover('compared')
    return run


_pairs = [('FrozenStatistics', 'FrozenStatistics'), ('RecordingStatistics', 'VoidRecordingStatistics'),
          ('RecordingStatistics', 'RecordingStatistics'), ('Statistics', 'FlatFrozenStatistics')]
for _k in list(EXACT) + list(PER_CALL):
    for _a, _b in _pairs:
        contract('C10', '%s of a %s and a %s' % (_k, _a, _b), ['profiling.stats', 'profiling.sortkeys'])(key_contract(_k, _a, _b))

# --- sorting -------------------------------------------------------------------

order_f = uf('order of', U, INT)
ORDER = Kind('order')
ORDER.call = lambda I, o, a, k: SV('int', order_f(u_of(I.path, a[0])))


def sorting(qual, given):
    def run(path):
        forest(path)
        s, cs = root(path, qual)
        calls = []
        path.interp.candidates = copied

        def model_sorted(path, args, kwargs):
            seq = path.norm(path.interp.to_seq(args[0]))
            rev = kwargs.get('reverse', False)
            if not isinstance(rev, bool):
                raise Unsupported('reverse given by a value')
            out = (Var(path.new_seq(('ref', STAT), 'sorted')),)
            path.add(path.length(out) == path.length(seq))
            calls.append((seq, kwargs.get('key'), rev, out))
            return PyList(out)
        path.interp.ext_models['sorted'] = model_sorted
        snap = Snapshot(path, s)
        args = (ref(path, ORDER, 'order'),) if given else ()
        r, e = attempt(path, lambda: call(path, get(path, s, 'sorted'), *args))
        path.check('sorting does not fail', e is None)
        if e is not None:
            return
        path.check('sorted once', len(calls) == 1)
        if len(calls) != 1:
            return
        seq, key, rev, out = calls[0]
        path.check('the children are sorted, all of them and nothing else', zb(path.seq_eq(seq, cs)))
        got = seq_of(path, r)
        if zb(path.seq_eq(got, out)) is not None and path.must(zb(path.seq_eq(got, out))):
            pass
        elif path.must(zb(path.seq_eq(got, path.rev(out)))):
            rev = not rev
        else:
            path.check('the sorted children are returned', zb(path.seq_eq(got, out)))
            return
        a, b = ref(path, STAT, 'a'), ref(path, STAT, 'b')
        if key is None:
            path.check('sorted by the key', False)
            return
        ka, kb = call(path, key, a), call(path, key, b)
        if given:
            want = order_f(a.t) < order_f(b.t)
        else:
            want = T_f(a.t) > T_f(b.t)
        path.check('in the order of the key', (less(path, kb, ka) if rev else less(path, ka, kb)) == want)
        path.check('sorting leaves the statistics as they are', snap.unchanged())
        path.cover('sorted')
    return run


for _n, _q in KINDS.items():
    contract('C10', '%s.sorted(order)' % _n, ['profiling.stats'])(sorting(_q, True))
    contract('C10', '%s.sorted()' % _n, ['profiling.stats'])(sorting(_q, False))

ASSUMPTIONS = ['the built-in sort returns a permutation of its input in ascending order of the key (descending with reverse=True)',
               'hits are not negative', 'texts are totally ordered with the empty one first',
               'the nodes below the ones compared satisfy the contracts of C05']
