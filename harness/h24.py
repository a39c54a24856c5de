"""C24: navigation in the real tables over the real urwid."""
import itertools
from trees import *
from profiling import sortkeys
from profiling.sampling import SamplingStatisticsTable
from profiling.stats import FlatFrozenStatistics
from profiling.tracing import TracingStatisticsTable
from profiling.viewer import FLAT, NESTED, LeafStatisticsNode, StatisticsTable, StatisticsViewer

RULE = ('random histories of refreshes with changed trees, keys, moves, expansions, orders and layouts over random trees; the focus, '
        'the whole displayed tree and what is expanded looked at after each step; distinct = different histories')
SIZE = (100, 30)


class OwnTable(StatisticsTable):
    columns = [('FUNCTION', 'left', ('weight', 1), sortkeys.by_function), ('LINE', 'right', (6,), sortkeys.SortKey(lambda s: s.lineno or 0)),
               ('', 'left', (4,), None), ('HITS', 'right', (6,), sortkeys.by_own_hits)]

    def make_cells(self, node, stats):
        for c in StatisticsTable.make_cells(self, node, stats):
            yield c
        for a in ('a', 'b', 'c'):
            import urwid
            yield urwid.Text(a)


TABLES = [StatisticsTable, TracingStatisticsTable, SamplingStatisticsTable, OwnTable]


def tree(rng, n, distinct=False, names=5):
    """[key, hits, time, children]; siblings differ in their hash"""
    used = set()

    def one(siblings):
        for _ in range(50):
            key = ('f%d' % rng.randint(0, 40 if distinct else names), 'x.py', rng.randint(1, 9 if distinct else 2), rng.choice(['m', 'n.o']))
            if key[:3] in siblings or distinct and key[:3] in used:
                continue
            siblings.add(key[:3])
            used.add(key[:3])
            return [key, rng.randint(0, 4), rng.choice([0.0, .5, 1.0, 2.25, 10.0]), [], set()]
        return None
    root = [(None, None, None, None), 0, 1.0, [], set()]
    nodes = [root]
    for _ in range(n):
        p = rng.choice(nodes[-4:] if rng.random() < .6 else nodes)
        s = one(p[4])
        if s is not None:
            p[3].append(s)
            nodes.append(s)
    return root


def changed(rng, t):
    """some nodes are gone, the others have other hits and times, in another order"""
    how = rng.random()

    def copy(n, depth):
        kids = [copy(c, depth + 1) for c in n[3] if how < .3 or rng.random() < .8]
        rng.shuffle(kids)
        return [n[0], rng.randint(0, 4), rng.choice([0.0, .5, 1.0, 2.25, 10.0]), kids, {c[0][:3] for c in kids}]
    return copy(t, 0)


def build(t, cls=FrozenStatistics):
    s = cls(*(t[0] + (t[1], t[2])))
    for c in t[3]:
        s.children.append(build(c))
    return s


class Watch(object):
    """a table and what it should show"""

    def __init__(self, H, table_class, distinct):
        self.H = H
        self.v = StatisticsViewer()
        self.v.table = self.t = table_class(self.v)
        self.v.widget.original_widget = self.t
        self.plan = [table_class.__name__]
        self.orders = [c[3] for c in self.t.columns if c[3] is not None]
        self.order, self.layout = self.t.order, NESTED
        self.remembered = set()
        self.open = {}          # path -> expanded, in the displayed tree
        self.stats = None
        self.path = ()
        self.eager = not distinct

    # the displayed tree
    def top(self):
        return self.stats if self.layout is NESTED or self.stats is None else FlatFrozenStatistics.flatten(self.stats)

    def kids(self, s):
        return sorted(list(s), key=self.order)

    def at(self, path, s=None):
        s = self.shown if s is None else s
        for h in path:
            s = [c for c in self.kids(s) if hash(c) == h][0]
        return s

    def longest(self, path):
        """the part of a path which exists"""
        s, out = self.shown, ()
        for h in path:
            match = [c for c in self.kids(s) if hash(c) == h]
            if not match:
                break
            s = match[0]
            out += (h,)
        return out

    def redisplay(self):
        self.shown = self.top()
        self.open = {}
        self.path = self.longest(self.path)

    def opened(self, path):
        if not path:
            return True
        if path not in self.open:
            self.open[path] = path[-1] in self.remembered
        return self.open[path]

    def set_open(self, path, state):
        if path and len(self.at(path)):
            self.open[path] = state
            (self.remembered.add if state else self.remembered.discard)(path[-1])

    # steps
    def do(self, op, *args):
        H, t = self.H, self.t
        self.plan.append((op,) + tuple(str(a)[:400] for a in args))
        if op == 'result':
            self.stats = build(args[0])
            ok, _ = H.attempt('set_result', self.plan, self.t.set_result, self.stats, 1.0, 2.0, 'title', None)
            if ok:
                self.redisplay()
        elif op == 'refresh':
            ok, _ = H.attempt('refresh', self.plan, t.refresh)
            if ok and self.stats is not None:
                self.redisplay()
        elif op == 'move':
            ok, _ = H.attempt('set_focus', self.plan, t.set_focus, self.node(args[0]))
            self.path = args[0]
        elif op in ('expand', 'collapse'):
            ok, w = H.attempt('get_widget', self.plan, self.node(args[0]).get_widget)
            if ok:
                ok, _ = H.attempt(op, self.plan, getattr(w, op))
            self.set_open(args[0], op == 'expand')
        elif op == 'order':
            order = self.orders[args[0]]
            ok, _ = H.attempt('sort_stats', self.plan, t.sort_stats, order)
            self.now_order(order)
        elif op == 'shift':
            ok, _ = H.attempt('shift_order', self.plan, t.shift_order, args[0])
            self.now_order(self.orders[(self.orders.index(self.order) + args[0]) % len(self.orders)])
        elif op == 'layout':
            ok, _ = H.attempt('set_layout', self.plan, t.set_layout, args[0])
            self.now_layout(args[0])
        elif op == 'key':
            key = args[0]
            if self.eager or key in ('left', 'right', '>', '+', '-'):
                self.v.widget.render(SIZE, True)
            ok, _ = H.attempt('key %r' % key, self.plan, self.v.widget.keypress, SIZE, key)
            self.pressed(key)
        return ok and self.look()

    def pressed(self, key):
        if key == ']' or key == '[':
            self.now_order(self.orders[(self.orders.index(self.order) + (1 if key == ']' else -1)) % len(self.orders)])
        elif key == '\\':
            self.now_layout(FLAT if self.layout is NESTED else NESTED)
        elif key == 'esc':
            self.path = ()
        elif self.stats is None:
            pass
        elif key == '>':
            while True:
                self.set_open(self.path, True)
                kids = self.kids(self.at(self.path))
                if not kids:
                    break
                self.path += (hash(kids[0]),)
        elif key == '+':
            self.set_open(self.path, True)
        elif key == '-':
            self.close()
        elif key == 'right' and self.layout is NESTED:
            kids = self.kids(self.at(self.path))
            if kids and not self.opened(self.path):
                self.set_open(self.path, True)
            elif kids:
                self.path += (hash(kids[0]),)
        elif key == 'left' and self.layout is NESTED:
            if self.path and len(self.at(self.path)) and not self.opened(self.path):
                if len(self.path) > 1:
                    self.path = self.path[:-1]
            else:
                self.close()

    def close(self):
        """- on an inner node collapses it, on a leaf its parent"""
        if not self.path:
            return
        if not len(self.at(self.path)):
            self.path = self.path[:-1]
        self.set_open(self.path, False)

    def now_order(self, order):
        if order is not self.order:
            self.order = order
            if self.stats is not None:
                self.redisplay()
        else:
            self.same = True

    def now_layout(self, layout):
        if layout != self.layout:
            self.layout = layout
            if self.stats is not None:
                self.redisplay()
        else:
            self.same = True

    # checks
    def root(self):
        return self.t.tbody.get_focus()[1].get_root()

    def node(self, path):
        n = self.root()
        for h in path:
            n = n.get_child_node([s for s in n.get_child_keys() if hash(s) == h][0])
        return n

    def look(self):
        H, t, inp = self.H, self.t, self.plan
        if not H.equal([t.order is o for o in self.orders], [self.order is o for o in self.orders], 'the order', inp):
            return False
        if not H.equal(t.layout, self.layout, 'the layout', inp):
            return False
        w, focus = t.tbody.get_focus()
        if self.stats is None:
            return H.expect(focus.get_value() is None, 'statistics of nowhere', inp)
        root = focus.get_root()
        if not H.expect(root.get_value() is not None, 'nothing is displayed', inp):
            return False
        path = []
        n = focus
        while n.get_parent() is not None:
            path.insert(0, hash(n.get_value()))
            n = n.get_parent()
        if not H.equal(tuple(path), self.path, 'the path of the focus', inp):
            return False
        if not H.equal(tuple(t.get_path()), self.path, 'get_path()', inp):
            return False
        if self.layout is NESTED:
            if not H.expect(root.get_value() is self.stats, 'the root is of other statistics', inp):
                return False
        if not H.equal(root.get_widget().expanded, True, 'the root is expanded', inp):
            return False
        return self.walk(root, self.shown, ()) and not H.failures

    def walk(self, node, s, path):
        H, inp = self.H, self.plan
        v = node.get_value()
        if not H.equal((hash(v), v.own_hits, v.deep_time), (hash(s), s.own_hits, s.deep_time), 'the statistics of a node', inp):
            return False
        kids = self.kids(s)
        if not H.equal(isinstance(node, LeafStatisticsNode), not kids and bool(path), 'a leaf', inp):
            return False
        if not kids:
            return True
        if not H.equal(bool(node.get_widget().expanded), self.opened(path), 'whether %r is expanded' % (v.name,), inp):
            return False
        if path:
            row = node.get_widget().render((200,), False).text[0].decode('utf-8', 'replace')
            if not H.equal(row[:len(path)], ' ' * (len(path) - 1) + '-+'[not self.opened(path)], 'indentation and mark of %r' % (v.name,), inp):
                return False
        if not self.eager and not self.opened(path):
            return True         # the widgets below are made later
        keys = list(node.get_child_keys())
        if not H.equal([hash(k) for k in keys], [hash(k) for k in kids], 'the children, in order', inp):
            return False
        for k, c in zip(keys, kids):
            if not self.walk(node.get_child_node(k), c, path + (hash(c),)):
                return False
        return True

    def visible(self):
        out = [()]
        for p in out:
            if self.opened(p) or self.eager:
                out += [p + (hash(c),) for c in self.kids(self.at(p))]
        return out


KEYS = [']', '[', '\\', 'esc', '>', 'left', 'right', 'left', 'right', 'right', '+', '-', 'right', 'x']


def play(H, table_class, n, size, distinct):
    rng = H.rng
    w = Watch(H, table_class, distinct)
    t = None
    ok = True
    for i in range(n):
        if not ok:
            break
        r = rng.random()
        if t is None and r < .7 or r < .2:
            t = tree(rng, rng.randint(0, size), distinct) if t is None or r < .05 else changed(rng, t)
            ok = w.do('result', t)
        elif r < .24:
            ok = w.do('refresh')
        elif r < .3:
            ok = w.do('order', rng.randrange(len(w.orders)))
        elif r < .36:
            ok = w.do('shift', rng.randint(-9, 9))
        elif r < .4:
            ok = w.do('layout', rng.choice([FLAT, NESTED]))
        elif r < .42:
            w.v.paused = not w.v.paused     # as by pause() and resume(), without their results
            w.v.active = rng.random() < .5
            w.plan.append(('paused', w.v.paused))
        elif r < .52 and t is not None:
            ok = w.do('move', rng.choice(w.visible()))
        elif r < .7 and t is not None:
            p = rng.choice(w.visible())
            if p and len(w.at(p)):
                ok = w.do(rng.choice(['expand', 'expand', 'collapse']), p)
        else:
            ok = w.do('key', rng.choice(KEYS))
    H.case(w.plan)
    return ok


def histories(H):
    for n in range(2500 if H.thorough else 500):
        if not H.time_left():
            break
        if not play(H, H.rng.choice(TABLES), H.rng.randint(3, 25), H.rng.choice([2, 5, 12, 25]), H.rng.random() < .5):
            break


def large(H):
    """trees with many children, deep ones, many expanded nodes"""
    for wide in (True, False):
        root = [(None, None, None, None), 0, 1.0, [], set()]
        p = root
        for i in range(300 if wide else 40):
            s = [('f%d' % i, 'x.py', i, 'm'), i % 7, float(i % 5), [], set()]
            s[3].append([('g%d' % i, 'x.py', i, 'm'), 1, .5, [], set()])
            p[3].append(s)
            p = p if wide else s
        w = Watch(H, TracingStatisticsTable, True)
        w.do('result', root)
        leaves = [p for p in paths(root) if p and not len(w.at(p))]
        inner = sorted([p for p in paths(root) if p and len(w.at(p))], key=len)
        for p in inner[::4 if wide else 1]:
            if not w.do('expand', p):
                return
        for p in inner[::12 if wide else 3] + inner[:1]:
            if not (w.do('move', p) and (H.rng.random() < .7 or w.do('result', changed(H.rng, root))) and w.do('result', root)):
                return
        w.do('result', root)
        for p in reversed(inner[::12 if wide else 5]):
            if not (w.do('collapse', p) and w.do('refresh')):
                return
        for p in leaves[::25 if wide else 7] + leaves[-1:]:
            if not (w.do('move', p) and w.do('result', root)):
                return
        H.case(w.plan)


def prefixes(H):
    """every focus of a tree, and every way to cut its path"""
    for table_class in TABLES[:2] * 2:
        t = tree(H.rng, 14, names=H.rng.randint(1, 4))
        for path in paths(t):
            for cut in range(len(path) + 1):
                w = Watch(H, table_class, False)
                if not (w.do('result', t) and w.do('move', path)):
                    return
                if cut < len(path):
                    w.do('result', without(t, path[:cut + 1]))
                else:
                    w.do('result', changed(H.rng, t))
                H.case(w.plan)


def paths(t):
    root = build(t)
    out = [()]

    def go(s, p):
        for c in s:
            out.append(p + (hash(c),))
            go(c, p + (hash(c),))
    go(root, ())
    return out


def without(t, path):
    return [t[0], t[1], t[2], [c if hash(build(c)) != path[0] else without(c, path[1:]) for c in t[3]
                               if len(path) > 1 or hash(build(c)) != path[0]], set()]


def current(H):
    """choosing what is chosen already displays nothing anew"""
    for table_class in TABLES:
        for layout in (NESTED, FLAT):
            w = Watch(H, table_class, False)
            w.do('result', tree(H.rng, 8))
            w.do('layout', layout)
            for x in range(len(w.orders)):
                w.do('order', x)
                root = w.root()
                for what in (('order', x), ('layout', layout), ('shift', 0), ('shift', len(w.orders)), ('shift', -3 * len(w.orders))):
                    w.do(*what)
                    H.expect(w.root() is root, 'choosing the current %s displays it anew' % what[0], w.plan)
                for what in ('layout', FLAT if layout is NESTED else NESTED), ('shift', 1), ('order', x):
                    before = w.root()
                    changes = what[0] == 'layout' or len(w.orders) > 1
                    w.do(*what)
                    H.expect((w.root() is not before) == changes, '%s does not display it anew' % what[0], w.plan)
                w.do('layout', layout)
            H.case(w.plan)


def no_statistics(H):
    for table_class in TABLES:
        for keys in itertools.product(KEYS[:9], repeat=2):
            w = Watch(H, table_class, False)
            for k in keys:
                if not w.do('key', k):
                    return
            w.do('refresh')
            w.do('result', tree(H.rng, 5))
            H.case(w.plan)


SECTIONS = [current, no_statistics, prefixes, large, histories]
