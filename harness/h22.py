"""C22: displayed numbers."""
import re
from fractions import Fraction as Fr
from trees import *
from profiling.viewer import StatisticsViewer, fmt
from profiling.stats import FlatFrozenStatistics
from profiling.tracing import TracingStatisticsTable
from profiling.sampling import SamplingStatisticsTable

RULE = ('boundaries between precisions, units and colours with neighbours at both sides, powers of ten times 1..9.99, random values of every '
        'magnitude; the cells of the tables for random trees; distinct = different values')
EPS = Fr(1, 10 ** 9)
INF = object()      # not decided


def near(x, *limits):
    return any(abs(x - l) <= EPS * max(1, abs(l)) for l in limits)


def number(s, decimals, want, scale=1):
    """does this text with so many decimals stand for the value?"""
    m = re.match(r'^-?\d+(?:\.(\d+))?$', s)
    if not m or len(m.group(1) or '') != decimals:
        return False
    return abs(Fr(s) - want) <= Fr(1, 2 * 10 ** decimals) + abs(want) * EPS


def quotient(r, d):
    return Fr(r) / Fr(d) if d else Fr(0)


def percent(s, q, unit=False):
    """None: not decided"""
    if near(q, Fr('0.995'), Fr('0.095')):
        return None
    if unit:
        if not s.endswith('%'):
            return False
        s = s[:-1]
    return number(s, 0 if q > Fr('0.995') else 1 if q > Fr('0.095') else 2, q * 100)


def ratio_class(q):
    for limit, name in ((0.9, 'caution'), (0.7, 'warning'), (0.3, 'notice'), (0.1, None)):
        if q == Fr(limit):
            return name
    if near(q, Fr('0.9'), Fr('0.7'), Fr('0.3'), Fr('0.1')):
        return INF
    for limit, name in ((Fr('0.9'), 'danger'), (Fr('0.7'), 'caution'), (Fr('0.3'), 'warning'), (Fr('0.1'), 'notice')):
        if q > limit:
            return name
    return 'zero' if q <= 0 else None


def count(s, n, units='kMGTPEZY'):
    n0, n = n, Fr(n)
    for k in range(len(units) + 1):
        x = n / 1000 ** k
        if k and near(abs(x), Fr('999.95')) or not k and n.denominator != 1 and 999 < abs(n) < 1000:
            return None
        if abs(x) < Fr('999.95'):
            if k == 0:
                return number(s, 0, x)
            return s.endswith(units[k - 1]) and number(s[:-1], 1, x)
    return s == ('o/f' if n > 0 else 'u/f')


def count_or_na(s, n):
    return s == 'n/a' if n == 0 else count(s, n)


def count_class(n):
    return None if n else 'zero'


def time_shown(s, t):
    t = Fr(t)
    if t == 0:
        return s == '0'
    if near(t, Fr(1, 1000), 1, 60, 600) and t not in (1, 60, 600):
        return None
    for limit, unit, scale, d in ((Fr(1, 1000), 'us', 10 ** 6, 0), (1, 'ms', 1000, 0), (60, 'sec', 1, 1)):
        if t < limit:
            return s.endswith(unit) and number(s[:-len(unit)], d, t * scale)
    m = t // 60
    if near(t / 60, m, m + 1) and t % 60:
        return None
    if t < 600:
        x = re.match(r'^(\d+)m(\d+)s$', s)
        return bool(x) and int(x.group(1)) == m and number(x.group(2), 0, t - 60 * m)
    return s == '%dm' % m


def time_class(t):
    t = Fr(t)
    if t == 0:
        return 'zero'
    if near(t, Fr(1, 1000)):
        return INF
    return 'usec' if t < Fr(1, 1000) else 'msec' if t < 1 else 'sec' if t < 60 else 'min'


def check(H, f, args, kw, verdict, want=None):
    """verdict(string), want: the colour"""
    inp = '%s(%s)' % (f, ', '.join([repr(a) for a in args] + ['%s=%r' % i for i in sorted(kw.items())]))
    H.case(inp)
    ok, got = H.attempt(inp, inp, getattr(fmt, f), *args, **kw)
    if not ok:
        return
    if f.startswith('make'):
        H.expect(got.align == 'right' and got.wrap == 'clip', 'layout %r, %r' % (got.align, got.wrap), inp)
        s, runs = got.get_text()
        got = (runs[0][0] if runs else None, s)
    if f.startswith('attr'):
        return want is INF or H.equal(got, want, 'colour', inp)
    if not f.startswith('format'):
        if not H.expect(isinstance(got, tuple) and len(got) == 2, 'no markup: %r' % (got,), inp):
            return
        if want is not INF:
            H.equal(got[0], want, 'colour', inp)
        got = got[1]
    if not isinstance(got, str) or verdict(got) is False:
        H.fail('%s shows %r' % (inp, got), inp)


def percentages(H, pairs):
    for r, d in pairs:
        q = quotient(r, d)
        cl = ratio_class(q)
        full = (lambda s: percent(s, q))
        for f in ('format_percent', 'attr_ratio', 'markup_percent', 'make_percent_text'):
            check(H, f, (r, d), {}, full, cl)
            check(H, f, (r,), dict(denom=d, unit=True), lambda s: percent(s, q, True), cl)
            check(H, f, (r, d, True), {}, lambda s: percent(s, q, True), cl)
            if d == 1:
                check(H, f, (r,), {}, full, cl)


def counts(H, ns):
    for n in ns:
        for f in ('format_int', 'attr_int', 'markup_int', 'make_int_text'):
            check(H, f, (n,), {}, lambda s: count(s, n), count_class(n))
        for f in ('format_int_or_na', 'markup_int_or_na', 'make_int_or_na_text'):
            check(H, f, (n,), {}, lambda s: count_or_na(s, n), count_class(n))
        for us in ('', 'k', 'abc'):
            check(H, 'format_int', (n, us), {}, lambda s: count(s, n, us))
            check(H, 'format_int', (n,), {'units': us}, lambda s: count(s, n, us))


def times(H, ts):
    for t in ts:
        for f in ('format_time', 'attr_time', 'markup_time', 'make_time_text'):
            check(H, f, (t,), {}, lambda s: time_shown(s, t), time_class(t))


def around(x, d):
    return [x - d, x - d / 100, x, x + d / 100, x + d]


def boundaries(H):
    rs = [0, 1, 2, -1, 0.5, 100, -.5]
    for x in (.995, .095, .9, .7, .3, .1, 1, .01, .001, .0001, .00005, .005, 10, .05):
        rs += around(x, .001) + around(x, .0001) + around(x, .02)
    percentages(H, [(r, 1) for r in rs] + [(r, 0) for r in (0, 1, 2.5, -1)] + [(r * 7, 7) for r in rs[7:]] + [(a, b) for a in range(0, 12) for b in range(0, 12)])
    ns = list(range(-20, 21)) + [True]
    for k in range(0, 30):
        for m in (1, 9, 99, 999, 9995, 99949, 99951, 999949, 999951, 12345):
            ns += [m * 10 ** k, -m * 10 ** k, m * 10 ** k + 1, m * 10 ** k - 1]
    ns += [float(n) for n in ns if abs(n) >= 1000] + [1e255, -1e255, .25, 1.75, 12.3, 500.4]
    counts(H, ns)
    ts = [0, 0.0, 1, 59, 60, 61, 119, 120, 599, 600, 601, 3600, 86400]
    for x in (1e-3, 1, 60, 600, 120, 1e-6, 1e-5, 1e-4, .01, .1, 10, 659, 720, 61, 119, 359.4):
        ts += [abs(t) for t in around(float(x), x / 10.) + around(float(x), x / 1000.)]
    times(H, ts)


def hints(H):
    for h in H.hints:
        try:
            g = {k: Fr(str(v).replace('?', '')) for k, v in h['values'].items() if k in ('ratio', 'denom', 'num', 'sec')}
        except Exception:
            continue
        if 'ratio' in g:
            percentages(H, [(float(g['ratio']), float(g.get('denom', 1)))])
        if 'num' in g:
            counts(H, [int(g['num']), float(g['num'])])
        if 'sec' in g and g['sec'] >= 0:
            times(H, [float(g['sec'])])


def randoms(H):
    rng = H.rng
    n = 6000 if H.thorough else 1500
    percentages(H, [(rng.choice([rng.random(), rng.random() * 10 ** rng.randint(-5, 3), rng.randint(0, 100)]),
                     rng.choice([1, rng.randint(1, 200), rng.random() * 10 + .1])) for _ in range(n // 4)])
    counts(H, [rng.choice([1, 1, -1]) * rng.randint(0, 10 ** rng.randint(0, 28)) for _ in range(n // 4)])
    times(H, [rng.random() * 10 ** rng.randint(-6, 5) for _ in range(n)])


def text(w):
    s, runs = w.get_text()
    return s, runs


def cell(H, inp, w, verdict, colour, what):
    s, runs = w.get_text()
    if not H.expect(verdict(s) is not False, 'the column %s shows %r' % (what, s), inp):
        return
    if colour is not INF:
        H.equal(runs[0][0] if runs else None, colour, 'colour of the column %s' % what, inp)


def tables(H):
    for n in range(120 if H.thorough else 40):
        live = recorded(H.rng, H.rng.randint(1, 12))
        root = live
        for flat in (False, True):
            for cls in (TracingStatisticsTable, SamplingStatisticsTable):
                table = cls(StatisticsViewer())
                table.layout = 1 if flat else 0
                cpu = H.rng.choice([0.0, 1.5, 40.0, .3])
                ok, _ = H.attempt('showing a result', n, table.set_result, root, cpu, 50.0, 'title', None)
                if not ok:
                    return
                _, top = table.get_focus()
                top = top.get_root()
                todo = [top]
                while todo:
                    node = todo.pop()
                    for key in getattr(node, 'get_child_keys', tuple)():
                        todo.append(node.get_child_node(key))
                    if node is not top:
                        row(H, table, node, cpu, top.get_value())


def row(H, table, node, cpu, root):
    s = node.get_value()
    inp = '%s of %r, cpu time %r, %r in all' % (type(table).__name__, [getattr(s, f) for f in FIELDS + MEASURES], cpu, root.deep_hits)
    H.case(inp)
    ok, cells = H.attempt('cells', inp, lambda: list(table.make_cells(node, s)))
    if not ok or not H.equal(len(cells), len(table.columns), 'number of cells', inp):
        return
    tracing = isinstance(table, TracingStatisticsTable)
    group = None
    for (name, _, _, _), w in zip(table.columns, cells):
        what = name if name in ('FUNCTION', 'CALLS') else '%s %s' % (group, name)
        if name == 'FUNCTION':
            got, runs = w.get_text()
            place = s.module or s.filename
            H.equal(got, '%s (%s:%s)' % (s.name, place, s.lineno) if s.name else place, 'the column FUNCTION', inp)
            continue
        if name in ('OWN', 'DEEP'):
            group = what = name.lower()
        if name == '%':
            q = quotient(getattr(s, group + '_time'), cpu) if tracing else quotient(getattr(s, group + '_hits'), root.deep_hits)
            cell(H, inp, w, lambda x: percent(x, q), ratio_class(q), what)
        elif name == 'CALLS' or not tracing:
            n = s.own_hits if name == 'CALLS' else getattr(s, group + '_hits')
            cell(H, inp, w, lambda x: count_or_na(x, n), count_class(n), what)
        else:
            t = getattr(s, group + ('_time' if name != '/CALL' else '_time_per_call'))
            if t >= 0:
                cell(H, inp, w, lambda x: time_shown(x, t), time_class(t), what)


SECTIONS = [hints, boundaries, tables, randoms]
