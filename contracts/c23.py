"""C23: a paused viewer is frozen and resumes with the latest result.

Over a model of urwid (contracts/urwid_model.py), for every viewer in any state:
    set_result(r): r is the latest result; it is displayed at once iff the viewer is not paused, and nothing displayed changes
        if it is
    pause(): nothing displayed changes;  resume(): the latest result is displayed
    activate(), inactivate(): nothing displayed changes
    set_profiler_class(c): the displayed table is of exactly the class c.table_class, the same one if it already was
    after each of them: the heading of the table shows paused, else inactive, else active, and marks the column of the order
displayed: the root of the displayed tree is the statistics of the result; the header shows its CPU and wall time with their
ratio, its title and its time.
Histories from the beginning, and every operation from every state reachable up to isomorphism, which leads to such a state again:
so histories of any length follow.
"""
from .common import *

V = 'profiling.viewer:'
MODULES = ['@urwid', 'profiling.viewer', 'profiling.profiler', 'profiling.tracing', 'profiling.sampling']
ASSUMPTIONS = ['urwid behaves as contracts/urwid_model.py says (the harness runs the real one)',
               'contracts of format_percent and format_time (C22)', 'results carry statistics (not None), times are numbers']
STATS = Kind('statistics')
STATS.truth = lambda I, o: SV('bool', uf('not empty', U, B)(o.t))


def date_attr(I, o, name):
    if name == 'strftime':
        return Builtin('strftime', lambda I, a, k: call(I.path, program(I.path, "def main(t, f): return ('{:' + f + '}').format(t)"), o, a[0]))
    raise I.exc('AttributeError', name)


DATE = Kind('datetime', handler=date_attr)
DATE.truth = lambda I, o: True
CLASSES = ['profiling.profiler:Profiler', 'profiling.tracing:TracingProfiler', 'profiling.sampling:SamplingProfiler']


class Result(object):

    def __init__(self, path, plain=False):
        self.path = path
        self.stats = ref(path, STATS, 'statistics')
        self.cpu, self.wall = fresh(path, 'real', 'cpu time'), fresh(path, 'real', 'wall time')
        path.assume(z3.And(num(path, self.cpu) >= 0, num(path, self.wall) >= 0))
        path.hint('cpu', self.cpu)
        path.hint('wall', self.wall)
        n = 3 if plain else path.choose(4, 'title and time')
        self.title = fresh(path, 'str', 'title') if n & 1 else None
        self.at = ref(path, DATE, 'time') if n & 2 else None
        if plain:
            # the others: contract 'a result in full'
            path.assume(zb(path.interp.truth_term(self.title)))
            path.assume(num(path, self.wall) > 0)

    def values(self):
        return self.stats, self.cpu, self.wall, self.title, self.at


def percent_model(path):
    def ratio_of(a, k):
        names = ('ratio', 'denom', 'unit')
        k = dict(zip(names, a), **k)
        ratio, denom = real(path, k['ratio']), real(path, k.get('denom', 1))
        return z3.If(denom == 0, z3.RealVal(0), ratio / denom), k.get('unit', False)

    def percent(p, a, k):
        ratio, unit = ratio_of(a, k)
        t = uf('percent', REAL, U)(ratio)
        p.add(p.kind_fact('str', t))
        s = p.from_u('str', t)
        return call(p, program(p, "def main(s): return s + '%'"), s) if unit else s

    def attr(p, a, k):
        return 'colour'

    def time(p, a, k):
        t = uf('time', REAL, U)(real(p, a[0] if a else k['sec']))
        p.add(p.kind_fact('str', t))
        return p.from_u('str', t)
    for n, f in (('format_percent', percent), ('attr_ratio', attr), ('format_time', time)):
        path.interp.models[V + 'Formatter.' + n] = f
    return percent, time


def real(path, v):
    t = num(path, v)
    if isinstance(t, (int, float)):
        return z3.RealVal(t)
    return z3.ToReal(t) if z3.is_int(t) else t


def plain(path, m):
    """the text of a markup"""
    if isinstance(m, tuple):
        return plain(path, m[1])
    if isinstance(m, PyList):
        out = ''
        for p in m.d['seq']:
            out = call(path, program(path, 'def main(a, b): return a + b'), out, plain(path, p.v))
        return out
    return m


class Viewer(object):
    """a viewer and what it should show"""

    def __init__(self, path):
        self.path = path
        I = path.interp
        I.loading = False
        I.unroll = All()
        self.percent, self.time = percent_model(path)
        self.v = new(path, V + 'StatisticsViewer')
        self.latest = self.shown = None
        self.paused = self.active = False
        self.klass = 0
        self.table = self.displayed()

    def displayed(self):
        return get(self.path, get(self.path, self.v, 'widget'), 'base_widget')

    def do(self, op, arg=None):
        path = self.path
        if op == 'result':
            stats, cpu, wall, title, at = arg.values()
            _, e = attempt(path, lambda: call(path, get(path, self.v, 'set_result'), stats, cpu, wall, title=title, at=at))
            self.latest = arg
            if not self.paused:
                self.shown = arg
        elif op == 'class':
            _, e = attempt(path, lambda: call(path, get(path, self.v, 'set_profiler_class'), cls(path, CLASSES[arg])))
            if arg != self.klass:
                self.table, self.shown, self.klass = None, None, arg
        else:
            _, e = attempt(path, lambda: call(path, get(path, self.v, op)))
            if op == 'pause':
                self.paused = True
            elif op == 'resume':
                self.paused = False
                self.shown = self.latest
            else:
                self.active = op == 'activate'
        path.check('%s does not fail' % op, e is None, detail=None if e is None else '%s %s' % (e.cls.name, e.d.get('args')))
        return e is None

    def check(self):
        path = self.path
        t = self.displayed()
        want = cls(path, CLASSES[self.klass] + '.table_class')
        path.check('the table is of the class of the profiler', isinstance(t, PyObj) and t.cls is want)
        if self.table is None:
            self.table = t
        path.check('the same table as before', t is self.table)
        path.check('the table of the viewer', get(path, self.v, 'table') is t)
        path.check('the table knows its viewer', get(path, t, 'viewer') is self.v)
        frame = get(path, t, '_w')
        # the tree
        _, focus = call(path, get(path, get(path, frame, 'body'), 'get_focus'))
        root = call(path, get(path, focus, 'get_root'))
        stats = call(path, get(path, root, 'get_value'))
        if self.shown is None:
            path.check('nothing is displayed', stats is None)
        else:
            path.check('the statistics are displayed', isinstance(stats, AbsRef) and eq(path, stats, self.shown.stats))
        # heading
        rows = [p.v[0] for p in seq_of(path, get(path, get(path, frame, 'header'), 'contents'))]
        header, thead = rows[0], rows[-1]
        want = 'thead.paused' if self.paused else 'thead' if self.active else 'thead.inactive'
        m = get(path, thead, 'attr_map')
        path.check('the heading shows the state', lib.dict_get(path.interp, m, None, None) == want)
        base = get(path, thead, 'base_widget')
        order = get(path, t, 'order')
        for p, c in zip(seq_of(path, get(path, base, 'contents')), seq_of(path, get(path, t, 'columns'))):
            markup = get(path, p.v[0], 'markup')
            a, text = markup if isinstance(markup, tuple) else (None, markup)
            path.check('the heading names its column', eq(path, text, c.v[0]))
            path.check('the column of the order is marked', a == (want + '.sorted' if c.v[3] is order else None))
        # header
        if self.shown is not None:
            texts = [plain(path, get(path, p.v[0], 'markup')) for p in seq_of(path, get(path, header, 'contents'))]
            self.check_header(texts, self.shown)
        path.cover('paused' if self.paused else 'active' if self.active else 'inactive')

    def check_header(self, texts, r):
        path = self.path
        path.check('the CPU usage is displayed', len(texts) >= 1)
        if not texts:
            return
        cat = program(path, "def main(p, c, w): return 'CPU ' + p + ' (' + c + '/' + w + ')'")
        cpu = call(path, cat, self.percent(path, (r.cpu, r.wall), {'unit': True}), self.time(path, (r.cpu,), {}), self.time(path, (r.wall,), {}))
        path.check('with the times of the result', eq(path, texts[0], cpu))
        title, at = r.title, r.at
        if title is not None and not path.decide(zb(path.interp.truth_term(title))):
            title = None
        f = "def main(title, t): return " + {(True, True): "title + ' ' + '{:%H:%M:%S}'.format(t)", (True, False): 'title',
                                             (False, True): "'{:%H:%M:%S}'.format(t)", (False, False): 'None'}[title is not None, at is not None]
        want = call(path, program(path, f), title, at)
        path.check('title and time', len(texts) == (1 if want is None else 2))
        if want is not None and len(texts) == 2:
            path.check('title and time of the result', eq(path, texts[1], want))


class All(object):
    def __contains__(self, x):
        return True


OPS = [('result', None), ('pause', None), ('resume', None), ('activate', None), ('inactivate', None), ('class', 0), ('class', 1),
       ('class', 2)]


def step(path, v, op, arg, plain=True):
    if op == 'resume' and not v.paused and v.shown is not v.latest:
        return False        # nothing to resume
    return v.do(op, Result(path, plain) if op == 'result' else arg)


def first_op(first):
    @contract('C23', 'histories beginning with %s%s' % (first[0], '' if first[1] is None else ' %d' % first[1]), MODULES, max_paths=40000)
    def history(path):
        v = Viewer(path)
        v.check()
        if not step(path, v, *first):
            return
        v.check()
        for i in range(2):
            if not step(path, v, *OPS[path.choose(len(OPS), 'operation')]):
                return
            v.check()


for _f in OPS:
    first_op(_f)


@contract('C23', 'a result in full', MODULES)
def full(path):
    """any title and time, or none"""
    v = Viewer(path)
    step(path, v, *OPS[path.choose(len(OPS), 'operation')])
    if step(path, v, 'result', None, plain=False):
        v.check()
    if v.paused and step(path, v, 'resume', None):
        v.check()


# --- any history -----------------------------------------------------------------------

def canonical(path, klass, active, paused, results):
    """a viewer in the given state; results: 'none', 'shown', 'newer' (than the shown one), 'hidden' (none is shown)"""
    v = Viewer(path)
    other = (klass + 1) % 3
    v.do('pause')
    v.do('resume')
    if results == 'hidden':
        v.do('class', other)
    else:
        v.do('class', klass)
    if results != 'none':
        v.do('result', Result(path, True))
    if results == 'hidden':
        v.do('class', klass)
    v.do('activate' if active else 'inactivate')
    if paused:
        v.do('pause')
    if results == 'newer':
        v.do('result', Result(path, True))
    v.table = v.displayed()
    call(path, get(path, get(path, get(path, v.table, '_w'), 'body'), 'get_focus'))     # as drawing does
    return v


def state_of(v):
    if v.latest is None:
        r = 'none'
    elif v.shown is None:
        r = 'hidden'
    else:
        r = 'shown' if v.shown is v.latest else 'newer'
    return v.klass, v.active, v.paused, r


#: the copy made by pause(), which any_state() varies, and what urwid works out again
IGNORED = ('_paused_result', '_depth')


class Iso(object):
    """whether two graphs of objects are the same up to renaming of objects and abstract values"""

    def __init__(self, path):
        self.path = path
        self.there, self.back = {}, {}
        self.why = None

    def no(self, *why):
        self.why = self.why or why
        return False

    def pair(self, key, key2):
        if key in self.there or key2 in self.back:
            return None if self.there.get(key) == key2 and self.back.get(key2) == key else False
        self.there[key], self.back[key2] = key2, key
        return True

    def same(self, a, b, where=''):
        if isinstance(a, (PyClass, PyModule)) or isinstance(b, (PyClass, PyModule)):
            return a is b or self.no(where, a, b)
        if isinstance(a, Frame) or isinstance(a, PyFunc) and a is b:
            return True
        if isinstance(a, (AbsRef, SV)) and isinstance(b, (AbsRef, SV)):
            r = self.pair(a.t.sexpr(), b.t.sexpr())
            return r is not False or self.no(where, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same(x, y, where + '[]') for x, y in zip(a, b)) or self.no(where, a, b)
        if isinstance(a, Unit) and isinstance(b, Unit):
            return self.same(a.v, b.v, where)
        if isinstance(a, SStr) and isinstance(b, SStr):
            return len(a.parts) == len(b.parts) and all(self.same(x, y, where) for x, y in zip(a.parts, b.parts)) or self.no(where, a, b)
        if isinstance(a, DictC) and isinstance(b, DictC):
            if a.base is not b.base or len(a.items) != len(b.items):
                return self.no(where, a.items, b.items)
            return all(self.same(k, k2, where) and self.same(x, y, where + '{%s}' % (k,)) for (k, x, _), (k2, y, _) in zip(a.items, b.items))
        if isinstance(a, BoundMethod) and isinstance(b, BoundMethod):
            return a.func is b.func and self.same(a.self, b.self, where)
        if isinstance(a, Mutable) and isinstance(b, Mutable):
            if type(a) is not type(b) or getattr(a, 'cls', None) is not getattr(b, 'cls', None):
                return self.no(where, a, b)
            r = self.pair(a.serial, b.serial)
            if r is not True:
                return r is None or self.no(where, a, b)
            ka, kb = set(a.d) - set(IGNORED), set(b.d) - set(IGNORED)
            if ka != kb:
                return self.no(where, ka ^ kb)
            return all(self.same(a.d[k], b.d[k], '%s.%s' % (where, k)) for k in sorted(ka, key=str))
        if type(a) is not type(b):
            return self.no(where, a, b)
        return a is b or a == b or self.no(where, a, b)


def any_state(op, arg):
    name = op if arg is None else '%s %d' % (op, arg)

    @contract('C23', '%s in any state' % name, MODULES, max_paths=40000)
    def run(path):
        klass = path.choose(3, 'table') if op != 'class' else (arg + path.choose(3, 'table')) % 3
        v = canonical(path, klass, bool(path.choose(2, 'active')), bool(path.choose(2, 'paused')),
                      ('none', 'shown', 'newer', 'hidden')[path.choose(4, 'results')])
        v.check()
        if '_paused_result' in v.v.d:
            # it may be older: pausing twice
            path.write(v.v, '_paused_result', Result(path, True).values())
        if not step(path, v, op, arg):
            return
        v.check()
        w = canonical(path, *state_of(v))
        iso = Iso(path)
        if not iso.same(v.v, w.v):
            raise Unsupported('the viewer keeps more state: histories are not covered by induction: %s' % (iso.why,))
        path.check('a state as before', True)
        path.cover('state')


for _op, _arg in OPS:
    any_state(_op, _arg)
