"""C06: saving and loading statistics preserves the whole tree.

Saving turns a tree into a table: entry i is (number of the parent's entry, measures).  With an arbitrary entry number K:
    make_frozen_stats_tree(root)
        loop invariant: the first x of the queued nodes have their entries, in order; of the queued nodes those with parent
                        number K are exactly the children of node K, in order (none while K is still to come)
        ensures  entry 0 is that of the root and has no parent;  entry K > 0 has a parent before it
        ensures  the measures in the entries with parent K are those of the children of node K, in order
    frozen_stats_from_tree(table), for any table as above
        loop invariant: the i-th node made has the measures of entry i; the children of node K so far are the nodes of
                        the entries with parent K, in order
        ensures  node K has the measures of entry K, its children are the nodes of the entries with parent K, in order
        ensures  the result is node 0
Together: the loaded tree is the saved one, node by node and child by child, at any depth.
"""
from .tree import *

MEMBERS = FIELDS + ('own_hits', 'deep_time')
WHAT = ('name', 'filename', 'line number', 'module', 'own hits', 'inclusive time')


def member_u(path, u):
    """U terms of what is kept of a node."""
    return [path.to_u(get(path, AbsRef(STAT, u), f)) for f in MEMBERS]


def snoc(s, t):
    return U.cons(t, s)


def pack(ts):
    u = U.nil
    for t in reversed(ts):
        u = U.cons(t, u)
    return u


def is_parent(path, parent, k):
    u = path.to_u(parent)
    return z3.And(U.is_int(u), U.ui(u) == k)


def save(path):
    forest(path)
    path.labelled = True
    root_ = ref(path, STAT, 'root')
    k = path.fresh('K', INT)
    path.assume(k >= 0)
    kids = Fold('children', lambda s, v: snoc(s, pack(member_u(path, v.t))))
    of_k = Fold('with parent K', lambda s, v: z3.If(is_parent(path, v[0], k), snoc(s, pack(member_u(path, path.to_u(v[1])))), s))
    entries_of_k = Fold('entries with parent K', lambda s, v: z3.If(is_parent(path, v[0], k), snoc(s, path.to_u(v[1])), s))
    node_at = At('node', lambda v: path.to_u(v[1]))
    parent_at = At('parent', lambda v: path.to_u(v[0]))

    entry_at = At('entry', lambda v: path.to_u(v[1]))
    name_at = At('name', lambda v: path.to_u(v[1][0]))
    count_k = Sum('number with parent K', lambda v: z3.If(is_parent(path, v[0], k), 1, 0), INT, True)

    def nk(table):
        """The node whose entry is number K."""
        return by_name(name_at.eval(path, table, k))

    def of_k_lemma(fold, acc, seq):
        """The fold; it stays as it is over a part without entries with parent K (induction)."""
        for p in path.norm(seq):
            new = fold.eval(path, acc, (p,))
            if isinstance(p, Var):
                path.add(z3.Implies(count_k.eval(path, (p,)) == 0, new == acc))
            acc = new
        return acc

    path.on_node = lambda cs: kids.atom(path, U.nil, cs)

    def entry_of(v):
        return (v[0], tuple(get(path, v[1], f) for f in MEMBERS))

    def ordered(i, v):
        """parents come first"""
        u = path.to_u(v[0])
        return z3.If(i == 0, U.is_none(u), z3.And(U.is_int(u), U.ui(u) >= 0, U.ui(u) < i))

    def candidates(lv):
        seqs = lv.seq_locs()
        queues = [x for x in seqs if x[3] != 'bottom' and x[3][0] == 'tup' and len(x[3][1]) == 2 and x[3][1][1] == ('ref', STAT)]
        tables = [x for x in seqs if x not in queues and (x[3] == 'bottom' or x[3][0] == 'tup' and len(x[3][1]) == 2 and
                                                          x[3][1][1] != 'any' and x[3][1][1][0] == 'tup')]
        counters = [(lv.label(loc), lambda loc=loc: num(path, lv.val(loc))) for loc in lv.numeric()]
        counters += [(lv.label(loc) + ' + 1', lambda loc=loc: num(path, lv.val(loc)) + 1) for loc in lv.numeric()]
        counters += [('len(%s)' % t, lambda s2=s2: path.length(s2())) for t, s2, _, _ in tables]
        for q, s, s0, _ in queues:
            # the queue keeps what was taken from it
            for label, n in counters:
                yield ('%s within %s' % (label, q), lambda n=n, s=s: z3.And(n() >= 0, n() <= path.length(s())))
                for t, s2, _, _ in seqs:
                    if t != q:
                        if label != 'len(%s)' % t:
                            yield ('%s counts %s' % (label, t), lambda n=n, s2=s2: n() == path.length(s2()))

                        def mapped(n=n, s=s, s2=s2):
                            a, b = path.split_at(s(), n())
                            return ('seqeq', s2(), tuple(path.mapped(p, (entry_of,), 'entry') for p in a))
                        yield ('%s is the entries of the first %s of %s' % (t, label, q), mapped)
                yield ('the children of K are in %s iff K < %s' % (q, label), lambda n=n, s=s: of_k.eval(path, U.nil, s()) == z3.If(
                    k < n(), kids.eval(path, U.nil, children(path, node_at.eval(path, s(), k))), U.nil))
            yield ('%s is not empty' % q, lambda s=s: path.length(s()) >= 1)
            yield ('%s: parents first' % q, lambda s=s: ('indexed', s(), ordered))
            yield ('%s begins with the root' % q, lambda s=s: z3.And(node_at.eval(path, s(), z3.IntVal(0)) == root_.t,
                   U.is_none(parent_at.eval(path, s(), z3.IntVal(0)))))
            # the queue, or stack, holds what has no entry yet
            for t, s2, _, _ in tables:
                for way, view in (('', lambda s=s: s()), (' reversed', lambda s=s: path.rev(s()))):
                    def of_entries_and_pending(view=view, s2=s2):
                        done = of_k_lemma(entries_of_k, U.nil, s2())
                        have = of_k_lemma(of_k, done, view())
                        return have == z3.If(k < path.length(s2()), kids.eval(path, U.nil, children(path, nk(s2()))), U.nil)
                    yield ('the children of K are in %s and%s %s iff K < len(%s)' % (t, way, q, t), of_entries_and_pending)

                def pending(s=s, s2=s2):
                    n = path.length(s2())

                    def fn(i, v):
                        u = path.to_u(v[0])
                        return z3.If(n == 0, U.is_none(u), z3.And(U.is_int(u), U.ui(u) >= 0, U.ui(u) < n))
                    return ('indexed', s(), fn)
                yield ('in %s: parents are in %s' % (q, t), pending)
                yield ('no pending child of K in %s before K is in %s' % (q, t), lambda s=s, s2=s2: z3.Implies(
                    k >= path.length(s2()), count_k.eval(path, s()) == 0))
                yield ('%s is the root, or entry 0 of %s is that of the root' % (q, t), lambda s=s, s2=s2: z3.If(
                    path.length(s2()) == 0,
                    z3.And(path.length(s()) == 1, node_at.eval(path, s(), z3.IntVal(0)) == root_.t,
                           U.is_none(parent_at.eval(path, s(), z3.IntVal(0)))),
                    z3.And(U.is_none(parent_at.eval(path, s2(), z3.IntVal(0))),
                           entry_at.eval(path, s2(), z3.IntVal(0)) == pack(member_u(path, root_.t)))))
                yield ('entry K of %s is that of node K' % t, lambda s2=s2: z3.Implies(k < path.length(s2()), entry_at.eval(
                    path, s2(), k) == pack(member_u(path, nk(s2())))))

                def before(s2=s2):
                    u = parent_at.eval(path, s2(), k)
                    return z3.Implies(z3.And(k > 0, k < path.length(s2())), z3.And(U.is_int(u), U.ui(u) >= 0, U.ui(u) < k))
                yield ('the parent of entry K of %s is before it' % t, before)
        if lv.is_for:
            for q, s, s0, _ in seqs:
                for name, v in sorted(lv.cut.frames[-1].d.items(), key=str):
                    if isinstance(v, SV) and v.kind == 'int':
                        yield ('%s got (%s, P)' % (q, name), lambda s=s, s0=s0, v=v: (
                            'seqeq', s(), s0() + tuple(path.mapped(p, (lambda c: (v, c),), path.to_u((v, AbsRef(STAT, engine.E_))).sexpr())
                                                       for p in path.norm(lv.P))))
    path.interp.candidates = candidates
    r, e = attempt(path, lambda: call(path, cls(path, STATS + '.__reduce__'), root_))
    path.check('saving does not fail', e is None)
    if e is not None:
        return
    for q in (REC, VOID, FROZEN):
        path.check('%s is saved in the same way' % q.split(':')[1],
                   cls(path, q).lookup('__reduce__') is cls(path, STATS).lookup('__reduce__'))
    path.check('saved as a call with one table', isinstance(r, tuple) and len(r) == 2 and len(r[1]) == 1)
    path.check('loaded by frozen_stats_from_tree', r[0] is cls(path, 'profiling.stats:frozen_stats_from_tree'))
    table = seq_of(path, r[1][0])
    n = path.length(table)
    path.check('the table is not empty', n >= 1)
    path.check('entry 0 is the root', z3.And(U.is_none(parent_at.eval(path, table, z3.IntVal(0))), z3.And(*[
        At(f, lambda v, i=i: path.to_u(v[1][i])).eval(path, table, z3.IntVal(0)) == t
        for i, (f, t) in enumerate(zip(MEMBERS, member_u(path, root_.t)))])))
    nk_ = nk(table)
    inside = k < n
    for i, f in enumerate(MEMBERS):
        path.check('entry K holds the %s of node K' % WHAT[i], z3.Implies(inside, At(f, lambda v, i=i: path.to_u(v[1][i])).eval(
            path, table, k) == member_u(path, nk_)[i]))
    path.check('the entries with parent K are those of the children of node K, in order', z3.Implies(
        inside, entries_of_k.eval(path, U.nil, table) == kids.eval(path, U.nil, children(path, nk_))))
    par = parent_at.eval(path, table, k)
    path.check('the parent of entry K is before it', z3.Implies(z3.And(inside, k > 0), z3.And(
        U.is_int(par), U.ui(par) >= 0, U.ui(par) < k)))
    path.cover('saved')



# loading ---------------------------------------------------------------------------------------------------------------

node_t = uf('loaded node', INT, U)
node_id = uf('id of loaded node', U, INT)
KIDS = Kind('children list', handler=lambda I, o, name: I.path.made.kids_attr(o, name))
NODE = Kind('loaded node', handler=lambda I, o, name: I.path.made.getattr(o, name))
NODE.setattr = lambda I, o, name, v: I.path.made.setattr(o, name, v)
NODE.pyclass = lambda I, o: cls(I.path, FROZEN)
NODE.truth = lambda I, o: SV('bool', I.path.fresh('has children', B))
kids_t = uf('children list of', U, U)
kids_owner = uf('owner of the list', U, U)


class Made(object):
    """The nodes made while loading, numbered in the order of making; the K-th one is looked at."""

    def __init__(self, path, k):
        self.path, self.k = path, k
        path.made = self
        g = path.ghost.d
        g['made'] = SV('int', z3.IntVal(0))
        for f in MEMBERS:
            g[f] = path.from_u('any', U.none)
        g['kids'] = ('kids',)
        self.set('kids', U.nil)
        self.young = {}         # nodes under construction
        path.interp.alloc_hooks[cls(path, FROZEN)] = self.alloc

    def set(self, name, t):
        self.path.write(self.path.ghost, name, SV('any', t))

    def g(self, name):
        return self.path.to_u(self.path.ghost.d[name])

    def alloc(self, c):
        path = self.path
        n = num(path, path.ghost.d['made'])
        path.write(path.ghost, 'made', SV('int', z3.simplify(n + 1)))
        t = node_t(n)
        path.add(z3.And(U.is_ref(t), node_id(t) == n))
        self.young[t.sexpr()] = {}
        return AbsRef(NODE, t)

    def getattr(self, o, name):
        path = self.path
        young = self.young.get(o.t.sexpr())
        if name not in MEMBERS + ('children',):
            return NotImplemented
        if young is not None and name not in young:
            raise path.interp.exc('AttributeError', name)
        if name == 'children':
            t = kids_t(o.t)
            path.add(z3.And(U.is_ref(t), kids_owner(t) == o.t))
            return AbsRef(KIDS, t)
        if young is not None:
            return young[name]
        raise Unsupported('reading %s of a loaded node' % name)

    def setattr(self, o, name, v):
        path = self.path
        here = node_id(o.t) == self.k
        young = self.young.get(o.t.sexpr())
        if young is not None:
            young[name] = v
        if name == 'children':
            s = seq_of(path, v)
            if isinstance(v, PyList) and v.kind == 'list' and s == ():
                self.set('kids', z3.If(here, U.nil, self.g('kids')))
                return
            raise Unsupported('children of a loaded node set to %r' % (v,))
        if name not in MEMBERS:
            raise Unsupported('setting %s of a loaded node' % name)
        self.set(name, z3.simplify(z3.If(here, path.to_u(v), self.g(name))))

    def kids_attr(self, o, name):
        if name != 'append':
            raise Unsupported('%s of the children of a loaded node' % name)

        def append(I, a, k):
            if not isinstance(a[0], AbsRef) or a[0].kind is not NODE:
                raise Unsupported('a child that is no loaded node')
            here = node_id(kids_owner(o.t)) == self.k
            self.set('kids', z3.simplify(z3.If(here, snoc(self.g('kids'), a[0].t), self.g('kids'))))
        return Builtin('append', append)


def load(path):
    k = path.fresh('K', INT)
    path.assume(k >= 0)

    def ordered(i, v):
        u = path.to_u(v[0])
        return z3.If(i == 0, U.is_none(u), z3.And(U.is_int(u), U.ui(u) >= 0, U.ui(u) < i))

    entry = ('tup', (('opt', 'int'), ('tup', ('any', 'any', 'any', 'any', 'int', 'real'))))
    base = path.new_seq(entry, 'table')
    base.indexed = ((z3.IntVal(0), ordered),)
    table = (Var(base),)
    n = path.length(table)
    path.assume(n >= 1)
    M = Made(path, k)
    # the nodes of the entries with parent K, in order
    of_k = Fold('with parent K', lambda s, v: U.cons(U.int(U.ui(U.hd(s)) + 1), z3.If(
        is_parent(path, v[0], k), snoc(U.tl(s), node_t(U.ui(U.hd(s)))), U.tl(s))))
    start = U.cons(U.int(z3.IntVal(0)), U.nil)
    member_at = [At(f, lambda v, i=i: path.to_u(v[1][i])) for i, f in enumerate(MEMBERS)]

    def iota(i, v):
        return node_id(path.to_u(v)) == i

    def node_i(i, v):
        return path.to_u(v) == node_t(i)

    def candidates(lv):
        if not lv.is_for:
            return
        P = lambda: lv.P
        made = lambda: num(path, path.ghost.d['made'])
        N = lambda: path.length(P())
        yield ('no children yet', lambda: M.g('kids') == U.nil)
        yield ('the entries passed are counted', lambda: U.hd(of_k.eval(path, start, P())) == U.int(N()))
        yield ('no child of K before entry K', lambda: z3.Implies(N() <= k, U.tl(of_k.eval(path, start, P())) == U.nil))
        yield ('the children of K are those of the entries with parent K passed', lambda: M.g('kids') == U.tl(of_k.eval(path, start, P())))
        yield ('as many nodes as entries', lambda: made() == path.length(P()))
        for q, s, s0, kind in lv.seq_locs():
            yield ('%s counts the nodes' % q, lambda s=s: path.length(s()) == made())
            yield ('%s holds node i at i' % q, lambda s=s: ('indexed', s(), iota))
            yield ('%s holds the nodes in order' % q, lambda s=s: ('indexed', s(), node_i))
        for loc in lv.maps():
            def numbered(loc=loc):
                m = made()

                def has(key):
                    u = path.to_u(key)
                    return z3.And(U.is_int(u), U.ui(u) >= 0, U.ui(u) < m)

                def node(key):
                    n = U.ui(path.to_u(key))
                    path.add(z3.And(U.is_ref(node_t(n)), node_id(node_t(n)) == n))
                    return AbsRef(NODE, node_t(n))
                return ('mapis', lv.val(loc), has, node)
            yield ('%s holds the nodes by their numbers' % lv.label(loc), numbered)
        for f, at in zip(MEMBERS, member_at):
            yield ('node K has the %s of entry K' % f, lambda f=f, at=at: z3.Implies(k < made(), M.g(f) == at.eval(path, P(), k)))
        yield ('entries are counted', lambda: U.hd(of_k.eval(path, start, P())) == U.int(made()))
        yield ('no child of K before K', lambda: z3.Implies(made() <= k, U.tl(of_k.eval(path, start, P())) == U.nil))
        yield ('the children of K are those of the entries with parent K', lambda: z3.Implies(
            k < made(), M.g('kids') == U.tl(of_k.eval(path, start, P()))))
    path.interp.candidates = candidates
    r, e = attempt(path, lambda: call(path, cls(path, 'profiling.stats:frozen_stats_from_tree'), PyList(table)))
    path.check('loading does not fail', e is None)
    if e is not None:
        return
    path.check('the result is node 0', eq(path, r, AbsRef(NODE, node_t(z3.IntVal(0)))))
    path.check('one node for each entry', num(path, path.ghost.d['made']) == n)
    inside = k < n
    for i, (f, at) in enumerate(zip(MEMBERS, member_at)):
        path.check('node K has the %s of entry K' % WHAT[i], z3.Implies(inside, M.g(f) == at.eval(path, table, k)))
    path.check('the children of node K are the nodes of the entries with parent K, in order',
               z3.Implies(inside, M.g('kids') == U.tl(of_k.eval(path, start, table))))
    path.cover('loaded')


def one_node(path):
    """A frozen node made from the kept values has exactly these and no children yet."""
    vals = [path.fresh_value('any', f) for f in FIELDS] + [SV('int', path.fresh('hits', INT)), SV('real', path.fresh('time', REAL))]
    s, e = attempt(path, lambda: new(path, FROZEN, *vals))
    path.check('does not fail', e is None)
    for f, v in zip(MEMBERS, vals):
        path.check('keeps the %s' % f, eq(path, get(path, s, f), v))
    path.check('no children', path.seq_eq(seq_of(path, call(path, get(path, s, '__iter__'))), ()))
    c = SeqVal((Var(path.new_seq(('ref', STAT), 'children')),), 'list')
    forest(path)
    lst = PyList(c.seq)
    path.interp.setattr(s, 'children', lst)
    path.check('iterates its children', path.seq_eq(seq_of(path, call(path, get(path, s, '__iter__'))), c.seq))
    path.check('its length is their number', num(path, call(path, get(path, s, '__len__'))) == path.length(c.seq))
    path.cover('made')


def empty(path):
    r, e = attempt(path, lambda: call(path, cls(path, 'profiling.stats:frozen_stats_from_tree'), PyList(())))
    path.check('an empty table is refused', is_exc(path, e, 'ValueError'))
    path.cover('refused')


contract('C06', 'saving: Statistics.__reduce__', ['profiling.stats'])(save)
contract('C06', 'loading: frozen_stats_from_tree', ['profiling.stats'])(load)
contract('C06', 'FrozenStatistics from kept values', ['profiling.stats'])(one_node)
contract('C06', 'loading nothing', ['profiling.stats'])(empty)

ASSUMPTIONS = ['pickle calls __reduce__ and carries the table (numbers, strings, tuples, one list) unchanged',
               'trees of statistics are finite and no node is reached twice',
               'names label the nodes: the code never looks at a name, so a tree with arbitrary names behaves as one whose '
               'names tell the nodes apart']
