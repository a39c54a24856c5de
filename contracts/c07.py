"""C07: flattening conserves every measure per function.

For an arbitrary function KAPPA (name, filename, line number, module), S_m(u) sums measure m over the nodes of KAPPA at and
below u.  Contract of FlatFrozenStatistics.flatten(root):
    loop invariant  measure m of the entry of KAPPA so far + sum of S_m over the queued nodes == sum of S_m over the children
                    there is an entry for KAPPA iff a node of KAPPA was met;  each entry is kept under its own identity
    ensures         exactly one child for KAPPA iff some descendant is of KAPPA, none otherwise
                    each of its four measures is the sum of that measure over the descendants of KAPPA
                    the result has the identity and the four measures of the root;  the tree is not touched
"""
from .tree import *

FLAT_CLASS = 'profiling.stats:FlatFrozenStatistics'
MEASURES = {'own_hits': (INT, 'int'), 'deep_hits': (INT, 'int'), 'own_time': (REAL, 'real'), 'deep_time': (REAL, 'real')}
node_m = {'own_hits': h_f, 'deep_hits': D_f, 'own_time': O_f, 'deep_time': T_f}
S_f = {m: uf('%s for KAPPA below' % m, U, s) for m, (s, _) in MEASURES.items()}
C_f = uf('nodes of KAPPA below', U, INT)
SumS = {m: Sum('S ' + m, lambda v, m=m: S_f[m](v.t), s) for m, (s, _) in MEASURES.items()}
SumC = Sum('C', lambda v: C_f(v.t), INT, True)
flat_t = uf('entry for', U, U)
flat_key = uf('identity of the entry', U, U)


def key_of(u):
    if z3.is_app(u) and u.decl().eq(flat_t):
        return u.arg(0)
    return flat_key(u)


FLAT = Kind('flat entry', fact=lambda path, u: U.is_ref(u), handler=lambda I, o, name: I.path.flat.getattr(o, name))
FLAT.setattr = lambda I, o, name, v: I.path.flat.setattr(o, name, v)
FLAT.pyclass = lambda I, o: I.path.flat.cls
FLAT.truth = lambda I, o: True


class Flat(object):
    """The entries of the flat tree, made inside the loop; the one for KAPPA is looked at."""

    def __init__(self, path):
        self.path = path
        path.flat = self
        self.cls = cls(path, FLAT_CLASS)
        self.kappa = path.to_u(tuple(path.fresh_value('any', 'kappa ' + f) for f in FIELDS))
        g = path.ghost.d
        for m, (s, k) in MEASURES.items():
            g[m] = SV(k, z3.IntVal(0) if s == INT else z3.RealVal(0))
        g['made'] = SV('bool', z3.BoolVal(False))
        path.add(flat_key(flat_t(self.kappa)) == self.kappa)
        path.interp.cls_hooks[self.cls] = self.make
        self.value = self.value_     # one object: it stands for the invariant
        path.on_map = self.on_map

    def value_(self, k):
        t = self.path.to_u(k)
        self.path.add(flat_key(flat_t(t)) == t)
        return AbsRef(FLAT, flat_t(t))

    def on_map(self, m):
        """The keys of a dictionary are pairwise different."""
        path = self.path
        if m.kinds[0] == 'bottom':
            return
        n = Sum('keys equal to KAPPA', lambda v: z3.If(path.to_u(v) == self.kappa, 1, 0), INT, True).eval(path, (Var(m.keys),))
        path.add(n == z3.If(m.present(path.from_u('any', self.kappa)), 1, 0))

    def make(self, I, c, args, kwargs):
        path = self.path
        h = I.cls_hooks.pop(c)
        try:
            o = I.instantiate(c, args, kwargs)
        finally:
            I.cls_hooks[c] = h
        if not path.active:
            return o
        key = path.to_u(tuple(get(path, o, f) for f in FIELDS))
        path.check('a new entry has no children', path.length(seq_of(path, call(path, get(path, o, '__iter__')))) == 0)
        # the first one for KAPPA is looked at; another one for KAPPA is a different object
        first = z3.And(key == self.kappa, z3.Not(self.g('made')))
        again = z3.And(key == self.kappa, self.g('made'))
        t = path.fresh('entry', U)
        path.add(z3.And(U.is_ref(t), flat_key(t) == key, z3.Implies(z3.Not(again), t == flat_t(key)), z3.Implies(again, t != flat_t(key))))
        for m in MEASURES:
            self.put(m, z3.If(first, self.real(m, num(path, get(path, o, m))), self.g(m)))
        self.put('made', z3.Or(self.g('made'), first))
        return AbsRef(FLAT, t)

    def looked_at(self, u):
        return u == flat_t(self.kappa)

    def real(self, m, t):
        return z3.ToReal(t) if MEASURES[m][0] == REAL and z3.is_int(t) else t

    def g(self, m):
        return self.path.ghost.d[m].t

    def put(self, m, t):
        self.path.write(self.path.ghost, m, SV(MEASURES[m][1] if m in MEASURES else 'bool', z3.simplify(t)))

    def getattr(self, o, name):
        path = self.path
        here = self.looked_at(o.t)
        if name in MEASURES:
            return SV(MEASURES[name][1], z3.If(here, self.g(name), path.fresh('other ' + name, MEASURES[name][0])))
        if name in FIELDS:
            k = key_of(o.t)
            for _ in range(FIELDS.index(name)):
                k = U.tl(k)
            return path.from_u('any', U.hd(k))
        f = self.cls.lookup(name)
        if isinstance(f, PyFunc):
            return path.interp.bind_attr(f, o, self.cls)
        raise Unsupported('%s of a flat entry' % name)

    def setattr(self, o, name, v):
        if name not in MEASURES:
            raise Unsupported('setting %s of a flat entry' % name)
        here = self.looked_at(o.t)
        self.put(name, z3.If(here, self.real(name, num(self.path, v)), self.g(name)))


def flatten(path):
    forest(path)
    F = Flat(path)

    def is_kappa(u):
        return path.to_u(tuple(STAT.attr(path, u, f) for f in FIELDS)) == F.kappa

    def on_node_fact(path, u):
        cs = children(path, u)
        k = is_kappa(u)
        out = [C_f(u) == z3.If(k, 1, 0) + SumC.eval(path, cs), C_f(u) >= 0]
        for m in MEASURES:
            out.append(S_f[m](u) == z3.If(k, F.real(m, node_m[m](u)), 0) + SumS[m].eval(path, cs))
        return z3.And(*out)
    path.more_facts = on_node_fact
    root_ = ref(path, STAT, 'root')
    cs = children(path, root_.t)
    total = {m: SumS[m].eval(path, cs) for m in MEASURES}
    kappas = SumC.eval(path, cs)
    key_v = path.from_u('any', F.kappa)

    one = {m: Sum('own ' + m, lambda v, m=m: z3.If(is_kappa(v.t), F.real(m, node_m[m](v.t)), 0), s) for m, (s, _) in MEASURES.items()}
    oneC = Sum('nodes of KAPPA', lambda v: z3.If(is_kappa(v.t), 1, 0), INT, True)

    def candidates(lv):
        # the nodes are collected first and added up later
        seqs = [(q, s) for q, s, s0 in waiting(lv)]
        for q, s in seqs:
            for q2, s2 in seqs:
                if q != q2:
                    for m in MEASURES:
                        yield ('%s of %s and below %s is constant' % (m, q, q2), lambda m=m, s=s, s2=s2: one[m].eval(
                            path, s()) + SumS[m].eval(path, s2()) == total[m])
                    yield ('KAPPA in %s and below %s is constant' % (q, q2), lambda s=s, s2=s2: oneC.eval(
                        path, s()) + SumC.eval(path, s2()) == kappas)
        if lv.is_for:
            for m in MEASURES:
                yield ('%s of the entry is that of the visited' % m, lambda m=m: F.g(m) == one[m].eval(path, lv.P))
            yield ('one was made iff one was visited', lambda: F.g('made') == (oneC.eval(path, lv.P) > 0))
            for loc in lv.maps():
                yield ('%s has KAPPA iff one was visited' % lv.label(loc), lambda loc=loc: zb(
                    lib.dict_has(path.interp, lv.val(loc), key_v)) == (oneC.eval(path, lv.P) > 0))
        for c in counters(lv):
            yield c
        queues = [(q, s) for q, s, s0 in waiting(lv)]
        if lv.is_for:
            # a level of nodes is walked, their children make the next one
            queues += [(q + ' and what is left', lambda s=s: tuple(lv.R) + tuple(s())) for q, s in queues] + [('what is left', lambda: lv.R)]
        for q, s in queues:
            for m in MEASURES:
                yield ('%s of the entry + that of %s is constant' % (m, q), lambda m=m, s=s: F.g(m) + SumS[m].eval(path, s()) == total[m])
            yield ('at most as many of KAPPA in %s' % q, lambda s=s: SumC.eval(path, s()) <= kappas)
            yield ('one was made iff one was met, by %s' % q, lambda s=s: F.g('made') == (kappas - SumC.eval(path, s()) > 0))
            for loc in lv.maps():
                yield ('%s has KAPPA iff one was met, by %s' % (lv.label(loc), q), lambda loc=loc, s=s: zb(
                    lib.dict_has(path.interp, lv.val(loc), key_v)) == (kappas - SumC.eval(path, s()) > 0))
        for m in MEASURES:
            for loc in lv.maps():
                yield ('no %s without an entry in %s' % (m, lv.label(loc)), lambda loc=loc, m=m: z3.Implies(z3.Not(zb(
                    lib.dict_has(path.interp, lv.val(loc), key_v))), F.g(m) == 0))
        for loc in lv.maps():
            yield ('%s keeps each entry under its identity' % lv.label(loc), lambda loc=loc: ('mapval', lv.val(loc), F.value))
    path.interp.candidates = candidates
    r, e = attempt(path, lambda: call(path, cls(path, FLAT_CLASS + '.flatten'), root_))
    path.check('flattening does not fail', e is None)
    if e is not None:
        return
    path.check('the result is a flat statistics', isinstance(r, PyObj) and r.cls is F.cls)
    if not isinstance(r, PyObj):
        return
    for f in FIELDS + tuple(MEASURES):
        path.check('the flat root has the %s of the root' % f, eq(path, get(path, r, f), get(path, root_, f)))
    flat = seq_of(path, call(path, get(path, r, '__iter__')))
    n = Sum('entries for KAPPA', lambda v: z3.If(key_of(v.t) == F.kappa, 1, 0) if isinstance(v, AbsRef) and v.kind is FLAT else 2,
            INT, True).eval(path, flat)
    path.check('exactly one entry for a function with descendants, none for others', n == z3.If(kappas > 0, 1, 0))
    path.check('its length is the number of entries', num(path, call(path, get(path, r, '__len__'))) == path.length(flat))
    for m in MEASURES:
        path.check('the %s of the entry is the sum over the descendants' % m, z3.Implies(kappas > 0, F.g(m) == total[m]))
    path.cover('flattened')


contract('C07', 'FlatFrozenStatistics.flatten', ['profiling.stats'])(flatten)

ASSUMPTIONS = ['trees of statistics are finite and no node is reached twice',
               'the four measures of the nodes are those of property C05',
               'a dictionary has pairwise different keys; functions are told apart by equality of the four identity fields']
