"""C24: table navigation survives refreshes and cycles through the orders.

Over a model of urwid (contracts/urwid_model.py):
    get_path() == the hashes of the statistics along the chain from the root, which is left out, to the focus
    find_node(n, path): from n on, a step goes to the first child with the next hash of the path, as long as there is one
        (loop invariants: the node so far is that of the part of the path gone through; no child so far has the next hash)
    refresh(): the displayed tree is that of the statistics, or of flatten(statistics) in flat layout; the focus is on
        find_node(its root, get_path() before);  nothing happens without statistics
    a node: its children are those of its statistics in the order of the table, one below it, leaves if they have none
    a widget: expanded iff it is the root or its function was expanded last; expanding and collapsing one, by key as well,
        changes that for its function and for no other
    shift_order(d), for every table, order and integer d: the order d columns further, wrapping around
    sort_stats(o), set_layout(l): redisplay with it, or nothing if it is the current one
    keypress(): ] and [ step the order, \\ switches the layout, ESC goes to the root, > expands down the first children; the
        arrows go to the first child and to the parent
"""
from .tree import *
from .c23 import All, percent_model
from . import c23

T = 'profiling.viewer:StatisticsTable'
MODULES = c23.MODULES
ASSUMPTIONS = ['urwid behaves as contracts/urwid_model.py says (the harness runs the real one)',
               'contract of flatten (C08) and of sorted (C10)', 'drawing the frame of a table changes nothing else (C23)']

def truth(path, v):
    t = path.interp.truth_term(v)
    return zb(t.t if isinstance(t, SV) else t)


# --- unknown nodes -----------------------------------------------------------------------

leaf_f, child_f, match_f = uf('is leaf', U, B), uf('child node', U, U, U), uf('first match', U, INT, U)
keys_f, root_f = uf('child keys', U, SeqS), uf('is root', U, B)
hash_f = uf('hash', U, INT)


def keys(path, n):
    return path.norm((Var(path.seq_at('child keys', keys_f(n), ('ref', KEY))),))


class First(Fold):
    """the first element with a hash; once found it stays"""

    def __init__(self, h):
        Fold.__init__(self, 'first', lambda s, v: z3.If(z3.Not(U.is_none(s)), s, z3.If(hash_f(v.t) == h, v.t, U.none)))

    def atom(self, path, s, p):
        t = Fold.atom(self, path, s, p)
        path.add(z3.Implies(z3.Not(U.is_none(s)), t == s))
        return t


def stopped(s):
    return U.is_cons(s)


class Walk(Fold):
    """how far one comes along a path: the node, or [node] when there is no way on"""

    def __init__(self):
        Fold.__init__(self, 'walk', self.go)

    def go(self, s, h):
        m = match_f(s, h.t if isinstance(h, SV) else z3.IntVal(h))
        return z3.If(stopped(s), s, z3.If(z3.Or(leaf_f(s), U.is_none(m)), U.cons(s, U.nil), child_f(s, m)))

    def atom(self, path, s, p):
        t = Fold.atom(self, path, s, p)
        path.add(z3.Implies(stopped(s), t == s))
        return t


def end_of(s):
    return z3.If(stopped(s), U.hd(s), s)


def known_hashes(path):
    for fr in path.interp.stack:
        for v in list(fr.d.values()):
            if isinstance(v, SV) and v.kind == 'int':
                yield v.t


def define_matches(path, n):
    """the definition of the first match among the children of a node, for the hashes in sight"""
    path.asked += [(n, h) for h in known_hashes(path)]
    matches(path)


def matches(path):
    for n, h in path.asked:
        path.add(match_f(n, h) == First(h).eval(path, U.none, keys(path, n)))


def view_attr(I, o, name):
    path = I.path

    def method(f):
        return Builtin(name, lambda I, a, k: f(*a, **k))
    if name == 'get_child_keys':
        if path.decide(leaf_f(o.t)):
            raise I.exc('AttributeError', name)

        def get_keys(reload=False):
            define_matches(path, o.t)
            return PyList(keys(path, o.t))
        return method(get_keys)
    if name == 'get_child_node':
        if path.decide(leaf_f(o.t)):
            raise I.exc('AttributeError', name)
        return method(lambda key, reload=False: ref_at(path, child_f(o.t, path.to_u(key))))
    if name == 'is_root':
        return method(lambda: SV('bool', root_f(o.t)))
    if name == 'get_parent':
        def parent():
            if path.decide(root_f(o.t)):
                return None
            return VIEWNODE.attr(path, o.t, 'parent')
        return method(parent)
    if name in ('get_value', 'get_key'):
        return method(lambda: VIEWNODE.attr(path, o.t, 'value'))
    if name == 'get_widget':
        return method(lambda reload=False: VIEWNODE.attr(path, o.t, 'widget'))
    if name == 'get_root':
        return method(lambda: VIEWNODE.attr(path, o.t, 'root'))
    if name == 'get_depth':
        def depth():
            d = VIEWNODE.attr(path, o.t, 'depth')
            path.add(z3.And(d.t >= 0, (d.t == 0) == root_f(o.t)))
            return d
        return method(depth)
    raise I.exc('AttributeError', name)


def ref_at(path, t):
    return path.from_u(('ref', VIEWNODE), t)


def is_view(I, o, c):
    if not isinstance(c, PyClass):
        return NotImplemented
    leaf = leaf_f(o.t)
    return {'LeafStatisticsNode': leaf, 'StatisticsNode': z3.Not(leaf), 'ParentNode': z3.Not(leaf), 'TreeNode': True,
            'StatisticsNodeBase': True, 'NullStatisticsNode': False}.get(c.name, NotImplemented)


KEY = Kind('statistics')
KEY.truth = lambda I, o: SV('bool', uf('not empty', U, B)(o.t))
WIDGET = Kind('widget')
VIEWNODE = Kind('viewer node', {'value': ('ref', KEY), 'widget': ('ref', WIDGET), 'depth': 'int'}, handler=None)
VIEWNODE.attrs['parent'] = VIEWNODE.attrs['root'] = ('ref', VIEWNODE)
VIEWNODE.isinstance = is_view
VIEWNODE.truth = lambda I, o: True


def view_getattr(I, o, name):
    return view_attr(I, o, name)


VIEWNODE.handler = view_getattr


def viewer(path, qual=T):
    path.interp.loading = False
    path.asked = []
    percent_model(path)
    path.interp.models[T + '.update_frame'] = lambda p, a, k: None      # C23
    v = new(path, 'profiling.viewer:StatisticsViewer')
    t = new(path, qual, v)
    path.interp.setattr(v, 'table', t)
    path.interp.setattr(get(path, v, 'widget'), 'original_widget', t)
    return t


def focus_of(path, t):
    return call(path, get(path, get(path, get(path, t, '_w'), 'body'), 'get_focus'))[1]


def runs_over(path, lv):
    """what a loop over an unknown sequence runs over"""
    v = lv.cut.over[1].value(z3.Const('an element', U))
    return 'statistics' if isinstance(v, AbsRef) and v.kind is KEY else 'hashes' if isinstance(v, SV) and v.kind == 'int' else None


@contract('C24', 'the path of the focus', MODULES)
def focus_path(path):
    t = viewer(path)
    n = ref(path, VIEWNODE, 'focus')
    path.write(get(path, get(path, get(path, t, '_w'), 'body'), 'body'), 'focus', n)
    chain_s = uf('path of', U, SeqS)

    def chain(u):
        def unfold(path):
            if path.must(root_f(u)):
                return ()
            if path.must(z3.Not(root_f(u))):
                parent = VIEWNODE.attr_u(u, 'parent')
                return (chain(parent), Unit(SV('int', hash_f(VIEWNODE.attr_u(u, 'value')))))
        return Var(path.seq_at('path', chain_s(u), 'int', unfold=unfold))
    spec = (chain(n.t),)

    def candidates(lv):
        for loc in lv.refs('viewer node'):
            v = lambda loc=loc: chain(path.to_u(lv.val(loc)))
            for label, s, _ in lv.seqs():
                yield ('path(%s) ++ %s' % (lv.label(loc), label), lambda v=v, s=s: ('seqeq', (v(),) + tuple(s()), spec))
                yield ('path(%s) ++ rev %s' % (lv.label(loc), label), lambda v=v, s=s: ('seqeq', (v(),) + path.rev(path.norm(s())), spec))
    path.interp.candidates = candidates
    r, e = attempt(path, lambda: call(path, get(path, t, 'get_path')))
    path.check('there is a path', e is None)
    if e is None:
        path.check('the hashes from the root to the focus', path.seq_eq(seq_of(path, r), spec))
        path.cover('path')


@contract('C24', 'find_node', MODULES)
def find(path):
    t = viewer(path)
    n = ref(path, VIEWNODE, 'node')
    steps = (Var(path.new_seq('int', 'path')),)
    walk = Walk()

    def candidates(lv):
        over = lv.is_for and runs_over(path, lv)
        if over == 'hashes':
            for loc in lv.refs('viewer node'):
                yield ('%s is as far as P leads' % lv.label(loc), lambda loc=loc: matches(path) or walk.eval(path, n.t, lv.P) == path.to_u(lv.val(loc)))
        if over == 'statistics':
            for h in known_hashes(path):
                for q, s, s0, kind in lv.seq_locs():
                    if kind in ('bottom', ('ref', KEY)):
                        # those with the hash are collected, the first one counts
                        yield ('%s begins with the first of P with the hash %s' % (q, h), lambda h=h, s=s: z3.If(
                            path.length(s()) == 0, U.is_none(First(h).eval(path, U.none, lv.P)), z3.And(
                                U.is_ref(First(h).eval(path, U.none, lv.P)), First(h).eval(path, U.none, lv.P) == At(
                                    'first', path.to_u).eval(path, s(), z3.IntVal(0)))))
                yield ('none of P has the hash %s' % h, lambda h=h: U.is_none(First(h).eval(path, U.none, lv.P)))
    path.interp.candidates = candidates
    r, e = attempt(path, lambda: call(path, get(path, t, 'find_node'), n, PyList(steps, 'deque' if path.choose(2, 'a deque') else 'list')))
    path.check('a node is found', e is None, detail=None if e is None else str(e.d))
    if e is None:
        matches(path)
        path.check('the deepest one on the path', isinstance(r, AbsRef) and end_of(walk.eval(path, n.t, steps)) == r.t)
        path.cover('found')


# --- orders and layouts --------------------------------------------------------------------

sorted_f, flat_f = uf('sorted by', U, U, SeqS), uf('flattened', U, U)
TABLES = ['profiling.viewer:StatisticsTable', 'profiling.tracing:TracingStatisticsTable', 'profiling.sampling:SamplingStatisticsTable']


def in_order(path, u, order):
    out = path.norm((Var(path.seq_at('sorted', sorted_f(u, path.to_u(order)), ('ref', KEY))),))
    n = uf('number of children', U, INT)(u)
    path.add(z3.And(path.length(out) == n, n >= 0, (n > 0) == uf('not empty', U, B)(u)))
    return out


def key_attr(I, o, name):
    path = I.path
    if name == 'sorted':
        return Builtin(name, lambda I, a, k: PyList(in_order(path, o.t, a[0] if a else k['order'])))
    if name == '__len__':
        def length(I, a, k):
            n = uf('number of children', U, INT)(o.t)
            path.add(z3.And(n >= 0, (n > 0) == uf('not empty', U, B)(o.t)))
            return SV('int', n)
        return Builtin(name, length)
    if name == '__hash__':
        return Builtin(name, lambda I, a, k: SV('int', hash_f(o.t)))
    raise I.exc('AttributeError', name)


KEY.handler = key_attr
KEY.attrs = {'name': 'str', 'module': 'str', 'filename': 'str', 'lineno': 'int', 'own_hits': 'int', 'deep_hits': 'int',
             'own_time': 'real', 'deep_time': 'real'}


def flat_model(path):
    q = 'profiling.stats:FlatFrozenStatistics.flatten'
    path.interp.models[q] = lambda p, a, k: p.from_u(('ref', KEY), flat_f(p.to_u(a[-1])))


def shown(path, t):
    """the displayed root"""
    return call(path, get(path, focus_of(path, t), 'get_root'))


def any_state(path, t):
    v = get(path, t, 'viewer')
    for a in ('paused', 'active'):
        path.interp.setattr(v, a, fresh(path, 'bool', a))


def with_stats(path, t):
    """a table which displays some statistics"""
    stats = ref(path, KEY, 'statistics')
    path.interp.unroll = All()
    flat_model(path)
    call(path, get(path, t, 'set_result'), stats, fresh(path, 'real', 'cpu'), fresh(path, 'real', 'wall'), 'title', None)
    call(path, get(path, shown(path, t), 'get_widget'))
    return stats


def expanded_set(path, t):
    s = get(path, t, '_expanded_stat_hashes')
    if not isinstance(s, PySet):
        raise Unsupported('the expanded functions are not in a set')
    return s


def any_set(path, t):
    s = expanded_set(path, t)
    path.write(s, 'c', DictC(path.new_map('int', 'bool', 'expanded')))
    return s


def remembers(path, t, h):
    return zb(lib.dict_has(path.interp, expanded_set(path, t).d['c'], h))


def check_shown(path, t, stats, old=None):
    """the statistics are displayed, in the layout and the order of the table"""
    root = shown(path, t)
    layout = get(path, t, 'layout')
    flat = layout == path.interp.modules['profiling.viewer'].d['FLAT']
    want = flat_f(path.to_u(stats)) if flat else path.to_u(stats)
    value = call(path, get(path, root, 'get_value'))
    path.check('the displayed tree is that of the layout', isinstance(value, AbsRef) and value.t == want)
    path.check('the displayed root belongs to the table', get(path, root, 'table') is t)
    keys = call(path, get(path, root, 'get_child_keys'))
    path.check('the children are in the order of the table', path.seq_eq(seq_of(path, keys), in_order(path, want, get(path, t, 'order'))))
    if old is not None:
        path.check('it is displayed anew', root is not old)
    return root


def per_table(name, max_paths=None):
    def deco(fn):
        for q in TABLES:
            contract('C24', '%s (%s)' % (name, q.split(':')[1]), MODULES, max_paths=max_paths or 4000)(lambda path, q=q: fn(path, q))
    return deco


def orders_of(path, t):
    return [c.v[3] for c in seq_of(path, get(path, t, 'columns')) if c.v[3] is not None]


@per_table('stepping the order')
def shifting(path, q):
    t = viewer(path, q)
    stats = with_stats(path, t)
    orders = orders_of(path, t)
    n = len(orders)
    path.check('the first order is one of the columns', any(o is get(path, t, 'order') for o in orders))
    x = path.choose(n, 'current order')
    call(path, get(path, t, 'sort_stats'), orders[x])
    path.check('the order is chosen', get(path, t, 'order') is orders[x])
    any_state(path, t)
    old = check_shown(path, t, stats)
    by_key = path.choose(3, 'by call or key')
    if by_key:
        key, r = [(']', 1), ('[', n - 1)][by_key - 1]
        res, e = attempt(path, lambda: call(path, get(path, t, 'keypress'), (80, 20), key))
        path.check('the key is handled', e is not None or res is True)
        r %= n
    else:
        r = path.choose(n, 'by how many columns, modulo their number')
        times = fresh(path, 'int', 'times around')
        delta = SV('int', num(path, times) * n + r)
        _, e = attempt(path, lambda: call(path, get(path, t, 'shift_order'), delta))
    path.check('the order can be stepped', e is None, detail=None if e is None else str(e.d))
    if e is None:
        path.check('the order further on', path.interp.force(get(path, t, 'order')) is orders[(x + r) % n])
        root = check_shown(path, t, stats)
        path.check('displayed anew iff the order is another', (root is old) == (r == 0))
        path.cover('stepped')


ORDER = Kind('order')
ORDER.call = lambda I, o, a, k: I.path.fresh_value('int')
ORDER.truth = lambda I, o: True


@per_table('choosing orders and layouts')
def choosing(path, q):
    """any orders"""
    t = viewer(path, q)
    stats = with_stats(path, t)
    m = path.interp.modules['profiling.viewer'].d
    order = ref(path, ORDER, 'current order')
    call(path, get(path, t, 'sort_stats'), order)
    path.check('the order is chosen', eq(path, get(path, t, 'order'), order))
    call(path, get(path, t, 'set_layout'), (m['NESTED'], m['FLAT'])[path.choose(2, 'current layout')])
    any_set(path, t)
    probe = fresh(path, 'int', 'hash')
    before = remembers(path, t, probe)
    layout = get(path, t, 'layout')
    any_state(path, t)
    old = check_shown(path, t, stats)
    what = path.choose(3, 'what')
    order2, layout2 = order, layout
    if what == 0:
        order2 = ref(path, ORDER, 'order')
        _, e = attempt(path, lambda: call(path, get(path, t, 'sort_stats'), order2))
    elif what == 1:
        layout2 = (m['NESTED'], m['FLAT'])[path.choose(2, 'layout')]
        _, e = attempt(path, lambda: call(path, get(path, t, 'set_layout'), layout2))
    else:
        layout2 = m['FLAT'] if layout == m['NESTED'] else m['NESTED']
        r, e = attempt(path, lambda: call(path, get(path, t, 'keypress'), (80, 20), '\\'))
        path.check('the key is handled', e is not None or r is True)
    path.check('it can be chosen', e is None, detail=None if e is None else str(e.d))
    if e is None:
        path.check('the order', eq(path, get(path, t, 'order'), order2))
        path.check('the layout', get(path, t, 'layout') == layout2)
        root = check_shown(path, t, stats)
        same = order2.t == order.t if layout == layout2 else z3.BoolVal(False)
        path.check('displayed anew iff it is another', z3.BoolVal(root is old) == same)
        path.check('the expanded functions stay so', remembers(path, t, probe) == before)
        path.cover('chosen')


# --- refreshing ------------------------------------------------------------------------------

def replaced(path, name, fn):
    """another contract in place of a method, if there is one"""
    c = cls(path, T)
    if name not in c.d:
        raise Unsupported('no method %s' % name)
    path.interp.models['%s.%s' % (T, name)] = fn


@per_table('a refresh')
def refreshing(path, q):
    t = viewer(path, q)
    m = path.interp.modules['profiling.viewer'].d
    path.interp.unroll = All()
    flat_model(path)
    log = []

    def find(p, a, k):
        log.append((a[1], a[2] if len(a) > 2 else k['path']))
        r = AbsRef(VIEWNODE, found_f(p.to_u(a[1])))
        p.write(p.ghost, 'found', r)
        return r
    steps = PyList((Var(path.new_seq('int', 'path')),), 'deque')
    old = ref(path, VIEWNODE, 'focus')
    focus_before = []

    def path_of(p, a, k):
        focus_before.append(focus_of(p, t))
        return steps
    replaced(path, 'find_node', find)
    replaced(path, 'get_path', path_of)
    with_what = path.choose(4, 'by what')
    stats = None if with_what == 0 else ref(path, KEY, 'statistics')
    path.interp.setattr(t, 'stats', stats)
    flat = path.choose(2, 'layout')
    path.interp.setattr(t, 'layout', m['FLAT'] if flat else m['NESTED'])
    for a in ('cpu_time', 'wall_time'):
        path.interp.setattr(t, a, fresh(path, 'real', a))
    walker = get(path, get(path, get(path, t, '_w'), 'body'), 'body')
    path.write(walker, 'focus', old)
    any_set(path, t)
    probe = fresh(path, 'int', 'hash')
    before = remembers(path, t, probe)
    if with_what != 3:
        any_state(path, t)      # results are passed on unless paused: C23
    if with_what < 2:
        _, e = attempt(path, lambda: call(path, get(path, t, 'refresh')))
    else:
        stats = ref(path, KEY, 'new statistics')
        if with_what == 3:
            # the viewer passes it on
            v = get(path, t, 'viewer')
            path.check('the viewer has the table', get(path, v, 'table') is t)
            _, e = attempt(path, lambda: call(path, get(path, v, 'set_result'), stats, 1.0, 2.0, 'title', None))
        else:
            _, e = attempt(path, lambda: call(path, get(path, t, 'set_result'), stats, 1.0, 2.0, 'title', None))
    path.check('it can be refreshed', e is None, detail=None if e is None else str(e.d))
    if e is not None:
        return
    focus = focus_of(path, t)
    path.check('the expanded functions stay so', remembers(path, t, probe) == before)
    if stats is None:
        path.check('nothing happens without statistics', isinstance(focus, AbsRef) and eq(path, focus, old))
        path.cover('nothing')
        return
    path.check('looked up once, by the path of the focus before', len(log) == 1 and all(f is old for f in focus_before))
    if len(log) != 1:
        return
    root, p = log[0]
    path.check('the path of the focus', path.seq_eq(seq_of(path, p), steps.d['seq']))
    path.check('the focus is on what is found in the new tree', isinstance(focus, AbsRef) and focus.t == found_f(path.to_u(root)))
    path.check('a new tree', isinstance(root, PyObj) and call(path, get(path, root, 'is_root')) is True)
    value = call(path, get(path, root, 'get_value'))
    want = flat_f(path.to_u(stats)) if flat else path.to_u(stats)
    path.check('of the statistics in the layout', isinstance(value, AbsRef) and value.t == want)
    path.check('of the table', get(path, root, 'table') is t)
    keys = call(path, get(path, root, 'get_child_keys'))
    path.check('in the order of the table', path.seq_eq(seq_of(path, keys), in_order(path, want, get(path, t, 'order'))))
    path.cover('flat' if flat else 'nested')


found_f = uf('found node', U, U)


# --- nodes and widgets ---------------------------------------------------------------------------

def is_named(path, v, name):
    return isinstance(v, PyObj) and any(c.name == name for c in v.cls.mro)


def some_node(path, t, n=''):
    """a node of some statistics at any depth; and whether it is the root, and whether it has children"""
    kind = path.choose(3, 'root, inner node or leaf' + n)
    stats = ref(path, KEY, 'statistics' + n)
    full = truth(path, (stats))
    if kind == 0:
        return new(path, 'profiling.viewer:StatisticsNode', stats, table=t), stats, True, None
    depth = fresh(path, 'int', 'depth' + n)
    path.assume(num(path, depth) >= 1)
    parent = ref(path, VIEWNODE, 'parent' + n)
    path.assume(full if kind == 1 else z3.Not(full))
    q = 'profiling.viewer:%sStatisticsNode' % ('' if kind == 1 else 'Leaf')
    return new(path, q, stats, parent, stats, depth, t), stats, False, kind == 1


@contract('C24', 'children of a node', MODULES)
def child_nodes(path):
    t = viewer(path)
    order = orders_of(path, t)[0]
    node, stats, root, inner = some_node(path, t)
    if not root and not inner:
        path.check('a leaf has no children', not is_named(path, node, 'ParentNode'))
        return
    keys, e = attempt(path, lambda: call(path, get(path, node, 'get_child_keys')))
    path.check('it has children', e is None)
    if e is not None:
        return
    path.check('the statistics in the order of the table', path.seq_eq(seq_of(path, keys), in_order(path, stats.t, order)))
    s = ref(path, KEY, 'child')
    child, e = attempt(path, lambda: call(path, get(path, node, 'get_child_node'), s))
    path.check('there is a node for it', e is None and isinstance(child, PyObj))
    if e is not None or not isinstance(child, PyObj):
        return
    leaf = z3.Not(truth(path, (s)))
    path.check('a leaf iff it has no children', leaf == z3.BoolVal(not is_named(path, child, 'ParentNode')))
    path.check('a leaf is one for find_node', z3.BoolVal(is_named(path, child, 'LeafStatisticsNode')) == leaf)
    path.check('its statistics', eq(path, call(path, get(path, child, 'get_value')), s))
    path.check('its parent', call(path, get(path, child, 'get_parent')) is node)
    path.check('its key', eq(path, call(path, get(path, child, 'get_key')), s))
    path.check('its depth', num(path, call(path, get(path, child, 'get_depth'))) == num(path, call(path, get(path, node, 'get_depth'))) + 1)
    path.check('its table', get(path, child, 'table') is t)
    path.check('it is there once', call(path, get(path, node, 'get_child_node'), s) is child)
    path.cover('child')


OPS = ['expand', 'collapse', 'key right', 'key +', 'key left', 'key -', 'key enter']


def widget_contract(op):
    @contract('C24', 'expansion is remembered: %s' % op, MODULES)
    def expansion(path):
        t = viewer(path)
        path.interp.unroll = All()
        replaced(path, 'make_row', lambda p, a, k: call(p, program(p, "import urwid\ndef main(): return urwid.Text('row')")))
        any_set(path, t)
        node, stats, root, inner = some_node(path, t)
        probe = fresh(path, 'int', 'hash')
        mine = hash_f(stats.t)
        at_first, known = remembers(path, t, probe), remembers(path, t, SV('int', mine))
        w, e = attempt(path, lambda: call(path, get(path, node, 'get_widget')))
        path.check('it has a widget', e is None, detail=None if e is None else '%s %s' % (e.cls.name, e.d))
        if e is not None:
            return
        path.check('the same one again', call(path, get(path, node, 'get_widget')) is w)

        def state(w, r, h, i):
            v = truth(path, get(path, w, 'expanded'))
            path.check('the root is expanded' if r else 'expanded iff its function was' if i else 'a leaf has nothing to expand',
                       zb(v) == (z3.BoolVal(True) if r else h) if r or i else True)
            # how it looks
            if i:
                mark = get(path, get(path, get(path, get(path, w, '_w'), 'base_widget'), 'widget_list'), '__getitem__')
                path.check('the mark', eq(path, call(path, get(path, call(path, mark, 0), 'get_text'))[0],
                                          call(path, program(path, "def main(e): return '-' if e else '+'"), get(path, w, 'expanded'))))
        state(w, root, known, inner)
        path.check('building it remembers nothing', remembers(path, t, probe) == at_first)
        if not root and not inner or root and not op.startswith('key'):
            return
        was = truth(path, (get(path, w, 'expanded')))
        if op.startswith('key'):
            path.write(get(path, get(path, get(path, t, '_w'), 'body'), 'body'), 'focus', node)
            if op == 'key right' and path.decide(was):
                return      # goes to the first child
            if op == 'key left' and path.decide(z3.Not(was)):
                return      # goes to the parent
            if op == 'key enter':
                r, e = attempt(path, lambda: call(path, get(path, w, 'keypress'), (80,), 'enter'))
                now = z3.Not(was)
            else:
                r, e = attempt(path, lambda: call(path, get(path, t, 'keypress'), (80, 20), op[4:]))
                now = z3.BoolVal(op in ('key right', 'key +'))
            path.check('the key is handled', e is not None or root or r is None or r is True)
            if root:
                now = z3.BoolVal(True)
        else:
            _, e = attempt(path, lambda: call(path, get(path, w, op)))
            now = z3.BoolVal(op == 'expand')
        path.check('it can be done', e is None, detail=None if e is None else '%s %s' % (e.cls.name, e.d))
        if e is not None:
            return
        path.check('the widget follows', truth(path, (get(path, w, 'expanded'))) == now)
        if inner:
            state(w, False, now, True)
            path.check('its function is remembered, and no other',
                       remembers(path, t, probe) == z3.If(num(path, probe) == mine, now, at_first))
        else:
            path.check('the root stays expanded', truth(path, get(path, w, 'expanded')))
            path.check('the root is not a function', remembers(path, t, probe) == at_first)
        # a node of another tree
        stats2 = ref(path, KEY, 'other statistics')
        path.assume(truth(path, stats2))
        known2 = remembers(path, t, SV('int', hash_f(stats2.t)))
        node2 = new(path, 'profiling.viewer:StatisticsNode', stats2, ref(path, VIEWNODE, 'other parent'), stats2, fresh_depth(path), t)
        state(call(path, get(path, node2, 'get_widget')), False, known2, True)
        path.check('its widget follows too', truth(path, (get(path, call(path, get(path, node2, 'get_widget')), 'expanded')))
                   == z3.If(hash_f(stats2.t) == mine, now if inner else known, known2))
        path.cover('root' if root else 'inner node')


def fresh_depth(path):
    d = fresh(path, 'int', 'other depth')
    path.assume(num(path, d) >= 1)
    return d


for _op in OPS:
    widget_contract(_op)


# --- moving the focus ------------------------------------------------------------------------------

has_first_f, first_f, node_f, open_f = uf('has a first child', U, B), uf('first child', U, U), uf('node of', U, U), uf('expanded', U, B)
deepest_f = uf('hot spot', U, U)


def widget_attr(I, o, name):
    path = I.path

    def method(f):
        return Builtin(name, lambda I, a, k: f(*a, **k))
    if name == 'expanded':
        return SV('bool', z3.Or(open_f(o.t), was_opened(path, o.t)))
    if name == 'get_node':
        return method(lambda: AbsRef(VIEWNODE, node_f(o.t)))
    if name == 'expand':
        def expand():
            path.write(path.ghost, 'opened', path.norm(path.ghost.d['opened'] + (Unit(o),)))
        return method(expand)
    if name == 'first_child':
        def first():
            hot(path, o.t)
            # only an expanded widget shows its children
            if path.decide(z3.And(z3.Or(open_f(o.t), was_opened(path, o.t)), has_first_f(o.t))):
                path.add(z3.And(U.is_ref(first_f(o.t)), U.is_ref(node_f(first_f(o.t)))))
                return AbsRef(WIDGET, first_f(o.t))
            return None
        return method(first)
    if name == 'keypress':
        def press(size, key):
            path.ghost.d['pressed'].append(key)
            return 'widget'
        return method(press)
    raise I.exc('AttributeError', name)


def was_opened(path, w):
    """whether a widget has been expanded just now"""
    seq = path.norm(path.ghost.d['opened'])
    return z3.BoolVal(bool(seq) and isinstance(seq[-1], Unit) and path.must(path.to_u(seq[-1].v) == w))


def hot(path, w):
    """the definition of the hot spot below a widget"""
    path.add(deepest_f(w) == z3.If(has_first_f(w), deepest_f(first_f(w)), node_f(w)))


WIDGET.handler = widget_attr
WIDGET.truth = lambda I, o: True


def focused(path, flat=None):
    t = viewer(path)
    m = path.interp.modules['profiling.viewer'].d
    flat = path.choose(2, 'layout') if flat is None else flat
    path.interp.setattr(t, 'layout', m['FLAT'] if flat else m['NESTED'])
    n = ref(path, VIEWNODE, 'focus')
    w = VIEWNODE.attr(path, n.t, 'widget')
    path.add(node_f(w.t) == n.t)
    path.write(path.ghost, 'opened', ())
    path.ghost.d['pressed'] = []
    path.write(get(path, get(path, get(path, t, '_w'), 'body'), 'body'), 'focus', n)
    return t, n, w, flat


def moved(path, t, want):
    f = focus_of(path, t)
    path.check('the focus', isinstance(f, AbsRef) and f.t == want)


for _key in ('right', 'left', 'esc', 'up', 'x'):
    def _contract(key):
        @contract('C24', 'moving by %s' % key, MODULES)
        def moving(path):
            t, n, w, flat = focused(path)
            r, e = attempt(path, lambda: call(path, get(path, t, 'keypress'), (80, 20), key))
            path.check('it can be pressed', e is None, detail=None if e is None else '%s %s' % (e.cls.name, e.d))
            if e is not None:
                return
            passed = path.ghost.d['pressed']
            arrow = key in ('left', 'right')
            if flat and arrow:
                path.check('not passed on', passed == [])
                moved(path, t, n.t)
            elif key == 'esc':
                path.check('not passed on', passed == [])
                moved(path, t, VIEWNODE.attr_u(n.t, 'root'))
            elif not arrow:
                path.check('passed on', passed == [key])
                moved(path, t, n.t)
            elif key == 'right':
                path.check('passed on iff not expanded', z3.BoolVal(passed == ['right']) == z3.Not(open_f(w.t)))
                path.check('once', len(passed) < 2)
                moved(path, t, z3.If(z3.And(open_f(w.t), has_first_f(w.t)), node_f(first_f(w.t)), n.t))
            else:
                path.check('passed on iff expanded', z3.BoolVal(passed == ['left']) == open_f(w.t))
                path.check('once', len(passed) < 2)
                parent = VIEWNODE.attr_u(n.t, 'parent')
                moved(path, t, z3.If(z3.And(z3.Not(open_f(w.t)), z3.Not(root_f(n.t)), z3.Not(root_f(parent))), parent, n.t))
            path.cover('pressed')
    _contract(_key)


@contract('C24', 'the hot spot', MODULES)
def hotspot(path):
    t, n, w, flat = focused(path)
    def candidates(lv):
        for loc in lv.refs('widget'):
            if loc[0] == path.ghost.serial:
                continue

            def deepest(loc=loc):
                hot(path, w.t)
                u = path.to_u(lv.val(loc))
                here = [deepest_f(w.t) == path.to_u(lv.val(l)) for l in lv.refs('viewer node')
                        if isinstance(lv.val(l), (AbsRef, Opt))]
                return z3.If(U.is_none(u), z3.And(*here) if here else z3.BoolVal(False), deepest_f(u) == deepest_f(w.t))
            yield ('hot spot of %s' % lv.label(loc), deepest)
    path.interp.candidates = candidates
    r, e = attempt(path, lambda: call(path, get(path, t, 'keypress'), (80, 20), '>'))
    path.check('it can be pressed', e is None, detail=None if e is None else '%s %s' % (e.cls.name, e.d))
    if e is None:
        path.check('handled', r is True)
        moved(path, t, deepest_f(w.t))
        path.cover('pressed')


@contract('C24', 'pausing by key', MODULES)
def pausing(path):
    t, n, w, flat = focused(path)
    v = get(path, t, 'viewer')
    for op in ('pause', 'resume'):
        path.interp.models['profiling.viewer:StatisticsViewer.' + op] = lambda p, a, k, op=op: p.ghost.d['pressed'].append(op)
    paused = path.choose(2, 'paused')
    path.interp.setattr(v, 'paused', bool(paused))
    r, e = attempt(path, lambda: call(path, get(path, t, 'keypress'), (80, 20), (' ', 'enter')[path.choose(2, 'key')]))
    path.check('it is paused or resumed', e is None and path.ghost.d['pressed'] == ['resume' if paused else 'pause'])
    moved(path, t, n.t)
    path.cover('pressed')


@contract('C24', 'the root stays expanded', MODULES)
def root_stays(path):
    """by keys on a node right below it"""
    t = viewer(path)
    path.interp.unroll = All()
    replaced(path, 'make_row', lambda p, a, k: call(p, program(p, "import urwid\ndef main(): return urwid.Text('row')")))
    root = new(path, 'profiling.viewer:StatisticsNode', ref(path, KEY, 'statistics'), table=t)
    call(path, get(path, root, 'get_widget'))
    stats = ref(path, KEY, 'child')
    leaf = path.choose(2, 'leaf')
    path.assume(truth(path, stats) == z3.BoolVal(not leaf))
    node = call(path, get(path, root, 'load_child_node'), stats)
    path.write(get(path, get(path, get(path, t, '_w'), 'body'), 'body'), 'focus', node)
    for i in range(2):
        key = ['left', '-', '+', 'x'][path.choose(4, 'key')]
        _, e = attempt(path, lambda: call(path, get(path, t, 'keypress'), (80, 20), key))
        path.check('it can be pressed', e is None, detail=None if e is None else '%s %s' % (e.cls.name, e.d))
        if e is not None:
            return
        path.check('the root is expanded', truth(path, get(path, call(path, get(path, root, 'get_widget')), 'expanded')))
    path.cover('leaf' if leaf else 'inner node')
