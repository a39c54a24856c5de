"""Statistics of unknown trees: opaque nodes whose measures are functions of the node, defined by structural recursion.

    D(u)  inclusive hits  = h(u) + sum of D over the children of u        (own hits plus those of all descendants)
    T(u)  inclusive time  = stored, but for an absent caller the sum of T over its children; it has no hits
The trees are finite, so the equations define D and T.
"""
from .common import *

FIELDS = ('name', 'filename', 'lineno', 'module')
kids_f = uf('children', U, SeqS)
void_u = uf('is void', U, B)
h_f = uf('h', U, INT)
D_f = uf('D', U, INT)
T_f = uf('T', U, REAL)
O_f = uf('O', U, REAL)      # exclusive time
by_name = uf('node of the name', U, U)      # names tell the nodes apart where a contract asks for it (path.labelled)


def u_of(path, v):
    return v.t if isinstance(v, AbsRef) else path.to_u(v)


def children(path, u):
    return path.norm((Var(path.seq_at('children', kids_f(u), ('ref', STAT), facts=child_fact)),))


def child_fact(path, u):
    pass


SumD = Sum('D', lambda v: D_f(v.t), INT)
SumH = Sum('h', lambda v: h_f(v.t), INT)
SumT = Sum('T', lambda v: T_f(v.t), REAL)
N_f = uf('nodes', U, INT)       # the node and all its descendants (path.counted)
SumN = Sum('nodes', lambda v: N_f(v.t), INT)
SumO = Sum('O', lambda v: O_f(v.t), REAL)


def fact(path, u):
    out = [U.is_ref(u)]
    if not path.interp.pure and u not in path.trees:
        path.trees.append(u)
        cs = children(path, u)
        d, t = SumD.eval(path, cs), SumT.eval(path, cs)
        out += [D_f(u) == h_f(u) + d, z3.Implies(void_u(u), z3.And(h_f(u) == 0, T_f(u) == t)),
                O_f(u) == z3.If(T_f(u) - t > 0, T_f(u) - t, 0)]
    if getattr(path, 'on_node', None) and not path.interp.pure:
        path.on_node(Var(path.seq_at('children', kids_f(u), ('ref', STAT), facts=child_fact)))
    if getattr(path, 'more_facts', None) and not path.interp.pure:
        out.append(path.more_facts(path, u))
    if getattr(path, 'counted', False) and not path.interp.pure:
        out.append(z3.And(N_f(u) == 1 + SumN.eval(path, children(path, u)), N_f(u) >= 1))
    if getattr(path, 'labelled', False):
        out.append(by_name(STAT.attr_u(u, 'name')) == u)
    return z3.And(*out)


def handler(I, o, name):
    path = I.path
    if name == 'own_hits':
        return SV('int', h_f(o.t))
    if name == 'deep_hits':
        return SV('int', D_f(o.t))
    if name == 'deep_time':
        return SV('real', T_f(o.t))
    if name == 'own_time':
        return SV('real', O_f(o.t))
    if name == '__iter__':
        return Builtin('__iter__', lambda I, a, k: IterObj(children(path, o.t)))
    if name == '__len__':
        return Builtin('__len__', lambda I, a, k: SV('int', path.length(children(path, o.t))))
    if name == 'children':
        return PyList(children(path, o.t))
    return NotImplemented


STAT = Kind('stat', {'name': 'any', 'filename': 'any', 'lineno': 'any', 'module': 'any', 'code': ('ref', CODE)},
            fact=fact, handler=handler)


def isinstance_(I, o, c):
    if isinstance(c, PyClass):
        if c is cls(I.path, 'profiling.stats:VoidRecordingStatistics'):
            return void_u(o.t)
        if c is cls(I.path, 'profiling.stats:Statistics'):
            return True
    return NotImplemented


STAT.isinstance = isinstance_
STAT.truth = lambda I, o: SV('bool', I.path.length(children(I.path, o.t)) > 0)


class Terms(list):
    def __contains__(self, t):
        return any(t.eq(x) for x in self)


def forest(path):
    path.trees = Terms()


def root(path, qual, name='root'):
    """A real node of a class over unknown children; (node, children)"""
    n = qual.split(':')[1]
    if n == 'FlatFrozenStatistics':
        s = new(path, qual)
        path.interp.setattr(s, 'children', PyList((Var(path.new_seq(('ref', STAT), name + ' children')),)))
    elif n in ('RecordingStatistics', 'VoidRecordingStatistics'):
        s = new(path, qual, ref(path, CODE, name + ' code'))
        d = dict_of(s, '_children')
        if d is None:
            raise Unsupported('recorded children are not kept in a dictionary named _children')
        path.write(d, 'c', DictC(path.new_map(('ref', CODE), ('ref', STAT), name)))
        if n == 'RecordingStatistics':
            path.interp.setattr(s, 'own_hits', SV('int', path.fresh('hits', INT)))
            path.interp.setattr(s, 'deep_time', SV('real', path.fresh('time', REAL)))
    else:
        args = [path.fresh_value('any', f) for f in FIELDS]
        args += [SV('int', path.fresh('hits', INT)), SV('real', path.fresh('time', REAL))]
        s = new(path, qual, *args)
        if n == 'FrozenStatistics':
            path.interp.setattr(s, 'children', PyList((Var(path.new_seq(('ref', STAT), name + ' children')),)))
    return s, seq_of(path, call(path, get(path, s, '__iter__')))


STATS = 'profiling.stats:Statistics'
REC = 'profiling.stats:RecordingStatistics'
VOID = 'profiling.stats:VoidRecordingStatistics'
FROZEN = 'profiling.stats:FrozenStatistics'


def waiting(lv):
    """(name, now, at entry) of the sequences of nodes a loop changes, and of what a counter leaves of them."""
    path = lv.path

    def suffix(s, n):
        def f():
            try:
                return path.split_at(s(), n())[1]
            except Unsupported:
                raise engine.NA()
        return f
    out = []
    for q, s, s0, k in lv.seq_locs():
        if k != 'bottom' and k != ('ref', STAT):
            continue
        out.append((q, s, s0))
        for loc in lv.numeric():
            if lv.kind(loc) == 'int' and loc[0] != path.ghost.serial:
                n = lambda loc=loc: num(path, lv.val(loc))
                n0 = lambda loc=loc: num(path, lv.entry(loc))
                out.append(('%s[%s:]' % (q, lv.label(loc)), suffix(s, n), suffix(s0, n0)))
    return out


def counters(lv):
    """Candidates: counters are within the sequences of nodes."""
    path = lv.path
    for loc in lv.numeric():
        if lv.kind(loc) == 'int' and loc[0] != path.ghost.serial:
            n = lambda loc=loc: num(path, lv.val(loc))
            yield ('%s >= 0' % lv.label(loc), lambda n=n: n() >= 0)
            for q, s, s0, k in lv.seq_locs():
                if k == ('ref', STAT):
                    yield ('%s within %s' % (lv.label(loc), q), lambda n=n, s=s: n() <= path.length(s()))


def conserved(lv):
    """Candidates: something summed up so far and something still to be summed up make a constant total."""
    path = lv.path

    def parts():
        nums, queues = [], []
        for loc in lv.numeric():
            nums.append((lv.label(loc), lambda loc=loc: num(path, lv.val(loc)), lambda loc=loc: num(path, lv.entry(loc))))
        for label, s, s0, k in lv.seq_locs():
            if k in ('int', 'real'):
                m = Sum('sum', lambda v: num(path, v), INT if k == 'int' else REAL)
                nums.append((label, lambda s=s, m=m: m.eval(path, s()), lambda s0=s0, m=m: m.eval(path, s0())))
        return nums, waiting(lv)
    for c in counters(lv):
        yield c
    nums, queues = parts()
    real = lambda t: z3.ToReal(t) if z3.is_int(t) else t
    for n, v, v0 in nums:
        for mn, m in (('D', SumD), ('T', SumT), ('O', SumO), ('h', SumH)):
            for q, s, s0 in queues:
                yield ('%s + %s(%s) stays' % (n, mn, q), lambda v=v, v0=v0, m=m, s=s, s0=s0:
                       real(v()) + real(m.eval(path, s())) == real(v0()) + real(m.eval(path, s0())))
            if lv.is_for:
                yield ('%s grew by %s(P)' % (n, mn), lambda v=v, v0=v0, m=m:
                       real(v()) == real(v0()) + real(m.eval(path, lv.P)))
                yield ('%s shrank by %s(P)' % (n, mn), lambda v=v, v0=v0, m=m:
                       real(v()) == real(v0()) - real(m.eval(path, lv.P)))
                for q, s, s0 in queues:
                    # a level of nodes is walked, their children make the next one
                    yield ('%s + %s(%s) grew by %s(P)' % (n, mn, q, mn), lambda v=v, v0=v0, m=m, s=s, s0=s0:
                           real(v()) + real(m.eval(path, s())) == real(v0()) + real(m.eval(path, s0())) + real(m.eval(path, lv.P)))
        if lv.is_for:
            yield ('%s grew by sum(P)' % n, lambda v=v, v0=v0: real(v()) == real(v0()) + real(
                Sum('sum', lambda x: number(path, x), REAL).eval(path, lv.P)))


def number(path, x):
    if isinstance(x, AbsRef):
        raise engine.NA()
    return num(path, x)
