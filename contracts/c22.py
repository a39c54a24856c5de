"""C22: displayed numbers denote the values they stand for.

For every ratio, denominator, count and time (reals and integers, no bound):
    format_percent(r, d, unit) == the number 100 * r / d with p decimals (+ '%'),  0 for a zero denominator
        p: 0 from 99.5 % on, 1 from 9.5 % on, 2 below
    format_int(n, units): n itself, or n / 1000**k with one decimal and the k-th unit, k the smallest with a rounded figure below
        1000;  'o/f' or 'u/f' if there is no such unit
    format_time(s): microseconds, milliseconds, seconds, minutes and seconds, or minutes
    attr_*(x): by the documented thresholds of the same value;  markup_*: that colour with that string;  make_*_text: a text of
        that markup, aligned to the right
    cells of a table: the figure each heading names
Formatting a number with a precision is the host's: a formatted value is compared by the number and the precision it was given.
"""
from .common import *

MODULES = ['profiling.viewer']
F = 'profiling.viewer:Formatter.'


class All(object):
    def __contains__(self, x):
        return True


def start(path):
    path.interp.unroll = All()      # the loops go over the units
    texts = []

    def text(p, a, k):
        o = ref(p, OPAQUE, 'text')
        markup = a[0] if a else k.pop('markup', None)
        names = ('align', 'wrap', 'layout')
        opts = dict(zip(names, a[1:]), **k)
        texts.append((o, markup, opts))
        return o
    model(path, 'urwid.Text', text)
    return texts


def parts_of(v):
    if isinstance(v, str):
        return [v] if v else []
    if isinstance(v, SStr):
        return list(v.parts)
    if isinstance(v, SV) and v.kind == 'str':
        return [v]
    return None


def value(path, v):
    t = num(path, v)
    return z3.ToReal(t) if z3.is_int(t) else t


def real(t):
    if isinstance(t, (int, float)):
        return z3.RealVal(t)
    return z3.ToReal(t) if z3.is_int(t) else t


def joined(want):
    out = []
    for w in want:
        if w == '':
            continue
        if isinstance(w, str) and out and isinstance(out[-1], str):
            out[-1] += w
        else:
            out.append(w)
    return out


def shows(path, what, got, *want):
    """The string consists of these texts and (number, decimals)."""
    got, want = parts_of(got), joined(want)
    if got is None:
        return path.check('%s: it is a string' % what, False)
    if len(got) == 1 and isinstance(got[0], str):
        # everything is known: the figure must be
        pos, s = [], ''
        for w in want:
            if isinstance(w, str):
                s += w
            else:
                v = z3.simplify(real(w[0]))
                if not z3.is_rational_value(v):
                    # which constant is it?
                    for c in (0,):
                        if path.must(v == c):
                            v = z3.RealVal(c)
                            break
                    else:
                        return path.check('%s: it depends on the value' % what, False)
                s += '%.*f' % (w[1], float(v.as_fraction()))
        return path.check(what, got[0] == s)
    if len(got) != len(want):
        return path.check('%s: it has the parts %s' % (what, [w if isinstance(w, str) else '<number>' for w in want]), False,
                          detail='got %r' % (got,))
    for g, w in zip(got, want):
        if isinstance(w, str):
            path.check('%s: the text %r' % (what, w), isinstance(g, str) and g == w)
        elif isinstance(w, SV):
            path.check('%s: the text' % what, not isinstance(g, str) and eq(path, g, w))
        elif not isinstance(g, tuple) or g[0] != 'fmt':
            path.check('%s: a number' % what, False)
        else:
            v, d = w
            whole = isinstance(g[2], SV) and g[2].kind == 'int'
            path.check('%s: %d decimals' % (what, d), g[1] == '.%df' % d or whole and d == 0 and g[1] in ('d', ''))
            path.check('%s: the number shown is the value' % what, value(path, g[2]) == real(v))


def number(path, name, whole):
    v = SV('int', path.fresh(name, INT)) if whole else SV('real', path.fresh(name, REAL))
    path.hint(name, v)
    return v


def quotient(path, r, d):
    """r / d as a term, 0 for a zero denominator"""
    r = real(num(path, r))
    if d is None:
        return r
    d = real(num(path, d))
    if path.decide(d == 0):
        return z3.RealVal(0)
    return r / d


def check_percent(path, got, q, unit, what='percent'):
    end = '%' if unit else ''
    if path.decide(q > z3.RealVal('0.995')):
        return shows(path, what, got, (q * 100, 0), end)
    if path.decide(q == z3.RealVal('0.995')):
        return
    if path.decide(q > z3.RealVal('0.095')):
        return shows(path, what, got, (q * 100, 1), end)
    if path.decide(q == z3.RealVal('0.095')):
        return
    shows(path, what, got, (q * 100, 2), end)


def ratio_class(path, q):
    for limit, name in (('0.9', 'danger'), ('0.7', 'caution'), ('0.3', 'warning'), ('0.1', 'notice')):
        if path.decide(q > path.num(float(limit))):
            return name
    return 'zero' if path.decide(q <= 0) else None


def same_class(path, what, got, want):
    path.check('%s is %r' % (what, want), got is None if want is None else isinstance(got, str) and got == want)


def percent(how, whole, denom, unit):
    def run(path):
        texts = start(path)
        r = number(path, 'ratio', whole)
        d = number(path, 'denom', whole) if denom else None
        kw = {}
        if d is not None:
            kw['denom'] = d
        if unit:
            kw['unit'] = True
        f = cls(path, F + how)
        got, e = attempt(path, lambda: path.interp.call(f, (r,), kw))
        path.check('no error', e is None)
        if e is not None:
            return
        q = quotient(path, r, d)
        if how == 'format_percent':
            return check_percent(path, got, q, unit)
        want = ratio_class(path, q)
        if how == 'attr_ratio':
            path.cover(str(want))
            return same_class(path, 'the colour', got, want)
        markup(path, got, texts, how, want, lambda s: check_percent(path, s, q, unit))
    return run


def markup(path, got, texts, how, want, check):
    if how.startswith('make'):
        found = [(m, o) for t, m, o in texts if t is got]
        path.check('it is a text', len(found) == 1)
        if len(found) != 1:
            return
        got, opts = found[0]
        path.check('a figure is aligned to the right and clipped', opts.get('align') == 'right' and opts.get('wrap') == 'clip')
    if not (isinstance(got, tuple) and len(got) == 2):
        return path.check('a colour and a string', False)
    same_class(path, 'the colour', got[0], want)
    check(got[1])


for whole in (False, True):
    for denom in (False, True):
        for unit in (False, True):
            contract('C22', 'percent%s%s%s' % (' of integers' * whole, ' with a denominator' * denom, ', unit' * unit), MODULES)(
                percent('format_percent', whole, denom, unit))
        contract('C22', 'colour of a ratio%s%s' % (' of integers' * whole, ' with a denominator' * denom), MODULES)(
            percent('attr_ratio', whole, denom, False))
contract('C22', 'markup of a percentage', MODULES)(percent('markup_percent', False, True, True))
contract('C22', 'text of a percentage', MODULES)(percent('make_percent_text', False, True, False))


def below(path, n, k):
    """the figure with k units is below 1000 when rounded to one decimal"""
    s = n / z3.RealVal(1000 ** k)
    return z3.And(s < z3.RealVal('999.95'), s > z3.RealVal('-999.95'))


def tie(path, n, k):
    s = n / z3.RealVal(1000 ** k)
    return z3.Or(s == z3.RealVal('999.95'), s == z3.RealVal('-999.95'))


def check_int(path, got, v, units='kMGTPEZY', what='count'):
    n = real(num(path, v))
    whole = isinstance(v, SV) and v.kind == 'int'
    for k in range(len(units) + 1):
        if not (whole and k == 0) and path.decide(tie(path, n, k)):
            return
        if path.decide(below(path, n, k)):
            if k == 0:
                if not whole and path.decide(z3.Or(n >= z3.RealVal('999.5'), n <= z3.RealVal('-999.5'))):
                    return      # no count
                return shows(path, what, got, (n, 0))
            path.cover('unit %d' % k)
            return shows(path, what, got, (n / z3.RealVal(1000 ** k), 1), units[k - 1])
    path.cover('too large')
    if path.decide(n > 0):
        path.check('overflow', isinstance(got, str) and got == 'o/f')
    else:
        path.check('underflow', isinstance(got, str) and got == 'u/f')


def count_shown(how, whole, units=None):
    def run(path):
        texts = start(path)
        v = number(path, 'num', whole)
        f = cls(path, F + how)
        got, e = attempt(path, lambda: call(path, f, v) if units is None else call(path, f, v, units))
        path.check('no error', e is None)
        if e is not None:
            return
        us = 'kMGTPEZY' if units is None else units

        def check(s):
            if 'na' in how and path.decide(num(path, v) == 0):
                return path.check('n/a for zero', isinstance(s, str) and s == 'n/a')
            check_int(path, s, v, us)
        if how.startswith('format'):
            return check(got)
        want = 'zero' if path.decide(num(path, v) == 0) else None
        if how == 'attr_int':
            return same_class(path, 'the colour', got, want)
        markup(path, got, texts, how, want, check)
    return run


for whole in (True, False):
    contract('C22', 'count%s' % ('' if whole else ' (real)'), MODULES)(count_shown('format_int', whole))
    contract('C22', 'count or n/a%s' % ('' if whole else ' (real)'), MODULES)(count_shown('format_int_or_na', whole))
for us in ('', 'k', 'xyz'):
    contract('C22', 'count with the units %r' % us, MODULES)(count_shown('format_int', True, us))
contract('C22', 'colour of a count', MODULES)(count_shown('attr_int', True))
contract('C22', 'markup of a count', MODULES)(count_shown('markup_int', True))
contract('C22', 'text of a count', MODULES)(count_shown('make_int_text', True))
contract('C22', 'markup of a count or n/a', MODULES)(count_shown('markup_int_or_na', True))
contract('C22', 'text of a count or n/a', MODULES)(count_shown('make_int_or_na_text', True))


def time_class(path, t):
    for limit, name in ((path.num(1e-3), 'usec'), (1, 'msec'), (60, 'sec')):
        if path.decide(t < limit):
            return 'zero' if path.decide(t == 0) else name
    return 'min'


def check_time(path, got, t, what='time'):
    if path.decide(t == 0):
        return path.check('zero', isinstance(got, str) and got == '0')
    if path.decide(t < path.num(1e-3)):
        return shows(path, what, got, (t * 1000000, 0), 'us')
    if path.decide(t < 1):
        return shows(path, what, got, (t * 1000, 0), 'ms')
    if path.decide(t < 60):
        return shows(path, what, got, (t, 1), 'sec')
    m = z3.ToReal(z3.ToInt(t / 60))
    path.cover('minutes')
    if path.decide(t < 600):
        return shows(path, what, got, (m, 0), 'm', (t - 60 * m, 0), 's')
    shows(path, what, got, (m, 0), 'm')


def time_shown(how, whole=False):
    def run(path):
        texts = start(path)
        v = number(path, 'sec', whole)
        path.add(num(path, v) >= 0)
        got, e = attempt(path, lambda: call(path, cls(path, F + how), v))
        path.check('no error', e is None)
        if e is not None:
            return
        t = real(num(path, v))
        if how == 'format_time':
            return check_time(path, got, t)
        want = time_class(path, t)
        if how == 'attr_time':
            path.cover(want)
            return same_class(path, 'the colour', got, want)
        markup(path, got, texts, how, want, lambda s: check_time(path, s, t))
    return run


contract('C22', 'time', MODULES)(time_shown('format_time'))
contract('C22', 'time in whole seconds', MODULES)(time_shown('format_time', True))
contract('C22', 'colour of a time', MODULES)(time_shown('attr_time'))
contract('C22', 'markup of a time', MODULES)(time_shown('markup_time'))
contract('C22', 'text of a time', MODULES)(time_shown('make_time_text'))

# the columns

FIGURES = Kind('figures', {'name': ('opt', 'str'), 'module': ('opt', 'str'), 'filename': ('opt', 'str'), 'lineno': ('opt', 'int'),
                           'own_hits': 'int', 'deep_hits': 'int', 'own_time': 'real', 'deep_time': 'real',
                           'own_time_per_call': 'real', 'deep_time_per_call': 'real'})
TREENODE = Kind('node')


def node_attr(I, o, name):
    if name == 'get_root':
        return Builtin(name, lambda I, a, k: I.path.ghost.d['root'])
    if name == 'get_value':
        return Builtin(name, lambda I, a, k: I.path.ghost.d['value of root' if o is I.path.ghost.d['root'] else 'value'])
    return NotImplemented


TREENODE.handler = node_attr


CELLS = '''
def main(table, node, stats):
    return list(table.make_cells(node, stats))
'''


SHOWN = {}


def by_contract(path):
    """the formatters by their contracts above: functions of the value"""
    def percent_of(p, a, k):
        r, d = a[0], a[1] if len(a) > 1 else k.get('denom', 1)
        d = real(num(p, d))
        return z3.If(d == 0, z3.RealVal(0), real(num(p, r)) / d)

    def just(p, a, k):
        return real(num(p, a[0]))
    for f, arg in (('format_percent', percent_of), ('attr_ratio', percent_of), ('format_int', just), ('attr_int', just),
                   ('format_int_or_na', just), ('format_time', just), ('attr_time', just)):
        def fn(p, a, k, f=f, arg=arg):
            unit = a[2] if len(a) > 2 else k.get('unit', False)
            p.check('a known form', unit is False and not (f == 'format_int' and (len(a) > 1 or k)))
            return SV('any', uf(f, REAL, U)(arg(p, a, k)))
        path.interp.models[F + f] = fn


def cells(which):
    def run(path):
        texts = start(path)
        by_contract(path)
        q = {'tracing': 'profiling.tracing:TracingStatisticsTable', 'sampling': 'profiling.sampling:SamplingStatisticsTable'}[which]
        path.interp.allow_opaque = True
        table = obj(path, q)
        cpu = SV('real', path.fresh('cpu_time', REAL))
        path.interp.setattr(table, 'cpu_time', cpu)
        node, top = ref(path, TREENODE, 'node'), ref(path, TREENODE, 'root')
        s, t = ref(path, FIGURES, 'stats'), ref(path, FIGURES, 'root stats')
        path.ghost.d.update({'root': top, 'value': s, 'value of root': t})
        got, e = attempt(path, lambda: seq_of(path, call(path, program(path, CELLS), table, node, s)))
        path.check('no error', e is None)
        if e is not None:
            return
        columns = [p.v[0] for p in seq_of(path, get(path, table, 'columns'))]
        path.check('a cell for every column', len(got) == len(columns))
        if len(got) != len(columns):
            return
        # what the headings say
        group = None
        by = {id(o): (m, opts) for o, m, opts in texts}
        value = lambda f, x=s: real(num(path, get(path, x, f)))
        ratio = lambda a, b: z3.If(b == 0, z3.RealVal(0), a / b)
        for c, cell in zip(columns, got):
            if c in ('OWN', 'DEEP'):
                group = c.lower()
            what = c if group is None or c in ('FUNCTION', 'OWN', 'DEEP') else '%s %s' % (group, c)
            path.cover(what)
            if id(cell.v) not in by:
                path.check('the cell %s is a text' % what, False)
                continue
            m, opts = by[id(cell.v)]
            if c == 'FUNCTION':
                named(path, m, s)
                continue
            if c == 'CALLS':
                want = ('attr_int', 'format_int_or_na', value('own_hits'))
            elif c == '%':
                want = ('attr_ratio', 'format_percent', ratio(value(group + '_time'), real(num(path, cpu))) if which == 'tracing' else
                        ratio(value(group + '_hits'), value('deep_hits', t)))
            elif c == '/CALL':
                want = ('attr_time', 'format_time', value(group + '_time_per_call'))
            elif which == 'tracing':
                want = ('attr_time', 'format_time', value(group + '_time'))
            else:
                want = ('attr_int', 'format_int_or_na', value(group + '_hits'))
            ok = isinstance(m, tuple) and len(m) == 2
            path.check('%s: a colour and a string' % what, ok)
            if ok:
                for x, f in zip(m, want):
                    path.check('%s: %s of the figure it names' % (what, f), path.to_u(x) == uf(f, REAL, U)(want[2]))
    return run


def text_of(path, v):
    """(is it there, the text)"""
    v = path.interp.force(v)
    if v is None:
        return False, None
    return path.decide(z3.Not(eq(path, v, ''))), v


def named(path, m, s):
    """name (module or file:line), or just the module or file"""
    I = path.interp
    there, name = text_of(path, get(path, s, 'name'))
    mod, module = text_of(path, get(path, s, 'module'))
    place = module if mod else I.force(get(path, s, 'filename'))
    if not there:
        ok = isinstance(m, tuple) and len(m) == 2
        path.check('a nameless one is shown by its place', ok and isinstance(m[0], str) and m[0] == 'loc')
        if ok:
            path.check('the place', same_text(path, m[1], place))
        return
    line = I.force(get(path, s, 'lineno'))
    m = [p.v for p in seq_of(path, m)]
    ok = len(m) == 3 and all(isinstance(x, tuple) and len(x) == 2 for x in (m[0], m[2]))
    path.check('name and place', ok and m[1] == ' ')
    if not ok:
        return
    path.check('their colours', isinstance(m[0][0], str) and isinstance(m[2][0], str) and (m[0][0], m[2][0]) == ('name', 'loc'))
    path.check('the name', same_text(path, m[0][1], name))
    want = lib.str_format(I, '({0}:{1})', (place, line), {})
    path.check('its place', same_text(path, m[2][1], want))


def same_text(path, a, b):
    a, b = path.interp.force(a), path.interp.force(b)
    if a is None or b is None:
        return z3.BoolVal(a is b)
    return eq(path, a, b)


contract('C22', 'columns of the tracing table', MODULES + ['profiling.tracing'])(cells('tracing'))
contract('C22', 'columns of the sampling table', MODULES + ['profiling.sampling'])(cells('sampling'))

ASSUMPTIONS = ['floats are idealised as reals (a tie of the rounding to be decided is not claimed: 99.5 %, 9.5 %, 999.95 units)',
               'formatting a number with n decimals and rounding are those of the host language',
               'counts are whole numbers (a real number between 999.5 and 999.95 is shown as 1000), times are not negative']
