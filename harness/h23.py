"""C23: the real viewer over the real urwid."""
import urwid
from datetime import datetime
from trees import *
from profiling.profiler import Profiler
from profiling.sampling import SamplingProfiler, SamplingStatisticsTable
from profiling.tracing import TracingProfiler, TracingStatisticsTable
from profiling.viewer import fmt, StatisticsTable, StatisticsViewer

RULE = ('random histories of results (random trees, times, with and without title and time), pauses, resumes, activations, '
        'profiler classes and keys, everything on the screen looked at after each step; distinct = different histories')
SIZE = (100, 24)


class OwnTable(StatisticsTable):
    pass


class SubTable(TracingStatisticsTable):
    pass


class OwnProfiler(Profiler):
    table_class = OwnTable


class SubProfiler(TracingProfiler):
    table_class = SubTable


CLASSES = [Profiler, TracingProfiler, SamplingProfiler, OwnProfiler, SubProfiler]


def screen(viewer):
    """what is drawn, with the attributes"""
    canvas = viewer.widget.render(SIZE, True)
    return [[(a, t.decode('utf-8', 'replace')) for a, _, t in row] for row in canvas.content()]


def text_of(rows):
    return [''.join(t for _, t in row) for row in rows]


def attrs_of(row):
    return {a for a, t in row if t.strip()}


class Watch(object):
    """a viewer and what it should show"""

    def __init__(self, H):
        self.H = H
        self.v = StatisticsViewer()
        self.latest = self.shown = None
        self.paused = self.active = False
        self.klass = Profiler
        self.plan = []
        self.table = self.v.widget.base_widget

    def do(self, op, *args):
        if op == 'resume' and not self.paused and self.shown is not self.latest:
            return True         # nothing to resume
        self.plan.append((op,) + tuple(a if not hasattr(a, '__name__') else a.__name__ for a in args[-4:]))
        H = self.H
        before = screen(self.v)
        if op == 'result':
            stats, cpu, wall, title, at = args
            ok, _ = H.attempt('set_result', self.plan, self.v.set_result, stats, cpu, wall, title=title, at=at)
            self.latest = args
            if not self.paused:
                self.shown = args
            else:
                H.expect(screen(self.v) == before, 'a result changes the screen while paused', self.plan)
        elif op == 'class':
            ok, _ = H.attempt('set_profiler_class', self.plan, self.v.set_profiler_class, args[0])
            if args[0] is not self.klass:
                self.klass, self.table, self.shown = args[0], None, None
        elif op == 'key':
            ok, _ = H.attempt('a key', self.plan, self.v.widget.keypress, SIZE, args[0])
            if self.paused:
                self.resumed()
            else:
                self.paused = True
        else:
            ok, _ = H.attempt(op, self.plan, getattr(self.v, op))
            if op == 'pause':
                self.paused = True
            elif op == 'resume':
                self.resumed()
            else:
                self.active = op == 'activate'
        return ok and self.look()

    def resumed(self):
        self.paused = False
        self.shown = self.latest

    def look(self):
        H, v, inp = self.H, self.v, self.plan
        t = v.widget.base_widget
        if not H.expect(type(t) is self.klass.table_class and v.table is t, 'the table is %s of %s' % (type(t).__name__, self.klass.__name__), inp):
            return False
        if self.table is None:
            self.table = t
        if not H.expect(self.table is t, 'another table of the same class', inp):
            return False
        rows = screen(v)
        text = text_of(rows)
        # heading
        at = [i for i, l in enumerate(text) if 'FUNCTION' in l]
        if not H.expect(len(at) == 1 and at[0] <= 1, 'no heading', inp):
            return False
        want = 'thead.paused' if self.paused else 'thead' if self.active else 'thead.inactive'
        H.equal({str(a).replace('.sorted', '') for a in attrs_of(rows[at[0]])}, {want}, 'the heading', inp)
        marked = [t.strip() for a, t in rows[at[0]] if str(a).endswith('.sorted')]
        named = [name for name, _, _, order in t.columns if order is t.order]
        H.equal(marked, named, 'the column marked', inp)
        # header
        head = text[0] if at[0] == 1 else ''
        root = t.tbody.get_focus()[1].get_root().get_value()
        if self.shown is None:
            H.expect(root is None, 'statistics of nowhere are displayed', inp)
            return True
        stats, cpu, wall, title, when = self.shown
        H.expect(root is stats, 'other statistics are displayed', inp)
        usage = cpu / wall if wall else 0.0
        want = 'CPU %s (%s/%s)' % (fmt.format_percent(usage, unit=True), fmt.format_time(cpu), fmt.format_time(wall))
        meta = ' '.join(([title] if title else []) + (['%02d:%02d:%02d' % (when.hour, when.minute, when.second)] if when else []))
        H.equal(head.split(), want.split() + meta.split(), 'the header', inp)
        # the rows
        for s, line in zip(stats.sorted(t.order), text[at[0] + 1:]):
            if not s.name:
                continue
            H.expect(s.name in line, 'the row of %r is %r' % (s.name, line), inp)
        shown = len([l for l in text[at[0] + 1:] if l.strip()])
        H.equal(shown, min(len(list(stats)), SIZE[1] - at[0] - 1), 'number of rows', inp)
        return not H.failures


def result(rng, n=None):
    n = rng.randint(0, 12) if n is None else n
    root = recorded(rng, n, void=0) if rng.random() < .5 else listed(rng, n, fields=[('f%d' % i, 'x.py', i, 'm') for i in range(1, 9)])
    wall = rng.choice([0.0, 0.5, 2.0, 70.0, 3.25])
    return (root, rng.choice([0.0, 0.25, 1.0, 90.0]), wall, rng.choice([None, '', 'title', 'a-title', 'x']),
            rng.choice([None, datetime(2020, 1, rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))]))


OPS = ['result', 'result', 'result', 'pause', 'resume', 'activate', 'inactivate', 'class', 'key']


def play(H, ops):
    w = Watch(H)
    if not w.look():
        return
    for op in ops:
        args = ()
        if op == 'result':
            args = result(H.rng)
        elif op == 'class':
            args = (H.rng.choice(CLASSES),)
        elif op == 'key':
            args = (H.rng.choice(['enter', ' ']),)
        if not w.do(op, *args):
            break
    H.case(w.plan)


def short(H):
    """every short history"""
    import itertools
    ops = ['result', 'pause', 'resume', 'activate', 'inactivate', 'class']
    for n in range(1, 5 if H.thorough else 4):
        for plan in itertools.product(ops, repeat=n):
            if not H.time_left():
                return
            play(H, plan)


def long(H):
    for n in range(600 if H.thorough else 200):
        if not H.time_left():
            break
        play(H, [H.rng.choice(OPS) for _ in range(H.rng.randint(4, 14))])


def looped(H):
    """what the main loop runs is what the viewer shows"""
    for klass in CLASSES:
        w = Watch(H)
        made = []
        real = urwid.MainLoop
        urwid.MainLoop = lambda widget, *a, **k: made.append(widget)
        try:
            ok, _ = H.attempt('loop', klass.__name__, w.v.loop)
        finally:
            urwid.MainLoop = real
        if not ok or not H.equal(len(made), 1, 'main loops', klass.__name__):
            continue
        w.do('class', klass)
        w.do('result', *result(H.rng))
        H.case(w.plan + ['in the loop'])
        H.equal(made[0].render(SIZE, True).text, w.v.widget.render(SIZE, True).text, 'what the main loop runs', w.plan)


def switches(H):
    """every pair of classes"""
    for a in CLASSES:
        for b in CLASSES:
            for c in (None, 'result', 'pause'):
                w = Watch(H)
                if w.do('class', a) and (c is None or w.do(c, *(result(H.rng) if c == 'result' else ()))) and w.do('class', b):
                    w.do('result', *result(H.rng))
                H.case(w.plan)


SECTIONS = [short, switches, looped, long]
