"""C09: recorded children form a faithful map from code to node.

Abstract state of a node: own hits, time, and the map code -> child (an unknown map, to which the code in question may
or may not belong, as a counting or an absent node), in the order of adding.
    ensure_child(code, cls): ensures  result is the recorded node, unless it is absent and a counting one is asked for:
              then a new counting node with the children and the inclusive time of the absent one and no hits takes its
              place;  a missing code gets exactly one new empty node at the end;  every other code keeps its node
    get/add/remove/discard/contains: affect that code only
    iter/len/children agree;  clear(): no children, initial measures
"""
from .common import *

CHILD = Kind('stats', {'own_hits': 'int', 'deep_time': 'real', 'code': ('ref', CODE)})
REC = 'profiling.stats:RecordingStatistics'
VOID = 'profiling.stats:VoidRecordingStatistics'


def children_dict(path, s):
    d = dict_of(s, '_children')
    if d is None:
        raise Unsupported('recorded children are not kept in a dictionary named _children')
    return d


def void_time(path):
    """Time of an absent node: a function of its children (what it is exactly is C05)."""
    times = {}

    def model_(path, a, k):
        c = a[0].d['_children'].d['c']
        t = times.get(id(c))
        if t is None:
            t = times[id(c)] = (c, SV('real', path.fresh('time of absent', REAL)))
        return t[1]
    path.interp.models['profiling.stats:VoidRecordingStatistics.deep_time'] = model_


class Node(object):
    """A node in any state, and a code of interest."""

    def __init__(self, path, qual, name='node', presents=3):
        self.path = path
        void_time(path)
        self.void = qual == VOID
        self.s = new(path, qual, ref(path, CODE, name + ' code'))
        self.code = ref(path, CODE, 'code')
        self.base = path.new_map(('ref', CODE), ('ref', CHILD), name)
        self.child = None
        items = ()
        has = self.base.present(self.code)
        self.how = path.choose(presents, 'the code is recorded')
        if self.how:
            path.assume(has)
            self.child = self.recorded(REC if self.how == 1 else VOID, self.code)
            items = ((self.code, self.child, True),)
        else:
            path.assume(z3.Not(has))
        path.write(children_dict(path, self.s), 'c', DictC(self.base, items))
        path.interp.setattr(self.s, 'own_hits', SV('int', path.fresh('hits', INT)))
        path.interp.setattr(self.s, 'deep_time', SV('real', path.fresh('time', REAL)))
        self.other = ref(path, CODE, 'other code')
        path.assume(self.other.t != self.code.t)
        self.before = self.seq()
        self.hits, self.time = get(path, self.s, 'own_hits'), get(path, self.s, 'deep_time')

    def recorded(self, qual, code):
        path = self.path
        c = new(path, qual, code)
        m = path.new_map(('ref', CODE), ('ref', CHILD), 'grandchildren')
        path.write(children_dict(path, c), 'c', DictC(m))
        path.interp.setattr(c, 'own_hits', SV('int', path.fresh('child hits', INT)))
        path.interp.setattr(c, 'deep_time', SV('real', path.fresh('child time', REAL)))
        return c

    def seq(self):
        return seq_of(self.path, call(self.path, get(self.path, self.s, '__iter__')))

    def __getattr__(self, name):
        return lambda *a: attempt(self.path, lambda: call(self.path, get(self.path, self.s, name), *a))

    def measures(self, what):
        path = self.path
        path.check('%s: own hits unchanged' % what, eq(path, get(path, self.s, 'own_hits'), self.hits))
        if not self.void:       # the time of an absent node is that of its children
            path.check('%s: own time unchanged' % what, eq(path, get(path, self.s, 'deep_time'), self.time))

    def check_other(self, what):
        """Every other code keeps its node."""
        path = self.path
        had = self.base.present(self.other)
        r, e = self.__contains__(self.other)
        path.check('%s: other codes are known as before' % what,
                   zb(lib.term(path.interp, path.interp.truth_value(r) if hasattr(path.interp, 'truth_value') else r)) == had)
        if path.decide(had):
            r, e = self.get_child(self.other)
            path.check('%s: other codes keep their node' % what, e is None and eq(path, r, self.base.value(self.other)))
        else:
            r, e = self.get_child(self.other)
            path.check('%s: other codes are not added' % what, is_exc(path, e, 'KeyError'))

    def agree(self, what):
        path = self.path
        s = self.seq()
        r, e = attempt(path, lambda: get(path, self.s, 'children'))
        path.check('%s: the child list is what iteration gives' % what, e is None and path.seq_eq(seq_of(path, r), s))
        r, e = self.__len__()
        path.check('%s: the length counts what iteration gives' % what, e is None and num(path, r) == path.length(s))


def check_empty(path, c, code, qual, what):
    path.check('%s: a node of the class asked for' % what, isinstance(c, PyObj) and c.cls is cls(path, qual))
    path.check('%s: a node for that code' % what, eq(path, get(path, c, 'code'), code))
    path.check('%s: without hits' % what, eq(path, get(path, c, 'own_hits'), 0))


def ensure(qual, asked):
    def run(path):
        n = Node(path, qual)
        arg = None if asked is None else cls(path, asked)
        want = asked or qual
        if n.child is not None:
            old_children = children_dict(path, n.child).d['c']
            old_time, old_hits = get(path, n.child, 'deep_time'), get(path, n.child, 'own_hits')
        r, e = attempt(path, lambda: call(path, get(path, n.s, 'ensure_child'), n.code, *([arg] if asked else [])))
        path.check('does not fail', e is None)
        if e is not None:
            return
        got, e = n.get_child(n.code)
        path.check('the result is the recorded node', e is None and got is r)
        if n.how == 0:
            check_empty(path, r, n.code, want, 'new node')
            path.check('new node: empty', path.seq_eq(seq_of(path, call(path, get(path, r, '__iter__'))), ()))
            if want == REC:
                path.check('new node: without time', eq(path, get(path, r, 'deep_time'), 0.0))
            path.check('exactly one node is added', path.seq_eq(n.seq(), n.before + (Unit(r),)))
            path.cover('new')
        elif n.how == 2 and want == REC:
            check_empty(path, r, n.code, REC, 'promoted node')
            path.check('promoted node: keeps the children', children_dict(path, r).d['c'] is old_children)
            path.check('promoted node: keeps the inclusive time', eq(path, get(path, r, 'deep_time'), old_time))
            path.check('no node is added', path.length(n.seq()) == path.length(n.before))
            path.cover('promoted')
        else:
            path.check('the recorded node is returned', r is n.child)
            path.check('the recorded node keeps its measures', z3.And(
                eq(path, get(path, r, 'own_hits'), old_hits), eq(path, get(path, r, 'deep_time'), old_time)))
            path.check('the recorded node keeps its children', children_dict(path, r).d['c'] is old_children)
            path.check('no node is added', path.seq_eq(n.seq(), n.before))
            path.cover('existing')
        n.measures('ensure')
        n.agree('ensure')
        n.check_other('ensure')
    return run


def operation(qual, op):
    def run(path):
        n = Node(path, qual)
        fresh_child = ref(path, CHILD, 'given child')
        child = n.child
        args = (n.code, fresh_child) if op == 'add_child' else (n.code,)
        snap = Snapshot(path, n.s)
        r, e = attempt(path, lambda: call(path, get(path, n.s, op), *args))
        if op == 'get_child':
            if n.how:
                path.check('gets the recorded node', e is None and r is child)
            else:
                path.check('a code without a node is a KeyError', is_exc(path, e, 'KeyError'))
            path.check('changes nothing', snap.unchanged())
        elif op == '__contains__':
            path.check('a code is in iff it is recorded', e is None and path.decide(zb(lib.term(path.interp, r))) == bool(n.how))
            path.check('changes nothing', snap.unchanged())
        elif op == 'add_child':
            got, e2 = n.get_child(n.code)
            path.check('the node is recorded', e is None and e2 is None and eq(path, got, fresh_child))
            if not n.how:
                path.check('one node is added', path.seq_eq(n.seq(), n.before + (Unit(fresh_child),)))
            else:
                path.check('the node takes the place', path.length(n.seq()) == path.length(n.before))
        else:
            if n.how:
                path.check('does not fail', e is None)
                path.check('one node is gone', path.length(n.seq()) == path.length(n.before) - 1)
            elif op == 'remove_child':
                path.check('removing a missing node is a KeyError', is_exc(path, e, 'KeyError'))
                path.check('removing a missing node changes nothing', snap.unchanged())
            else:
                path.check('discarding a missing node does nothing', e is None and snap.unchanged())
            got, e2 = n.get_child(n.code)
            path.check('the code has no node any more', is_exc(path, e2, 'KeyError'))
            c, e3 = n.__contains__(n.code)
            path.check('the code is not in any more', e3 is None and path.decide(zb(lib.term(path.interp, c))) is False)
        path.cover('recorded') if n.how else path.cover('missing')
        n.measures(op)
        n.agree(op)
        n.check_other(op)
    return run


def clear(qual):
    def run(path):
        n = Node(path, qual)
        r, e = attempt(path, lambda: call(path, get(path, n.s, 'clear')))
        path.check('does not fail', e is None)
        path.check('no children', path.seq_eq(n.seq(), ()))
        c, e = n.__len__()
        path.check('length zero', e is None and eq(path, c, 0))
        path.check('no hits', eq(path, get(path, n.s, 'own_hits'), 0))
        if qual == REC:
            path.check('no time', eq(path, get(path, n.s, 'deep_time'), 0.0))
        n.agree('clear')
        for code in (n.code, n.other):
            g, e = n.get_child(code)
            path.check('no code has a node', is_exc(path, e, 'KeyError'))
            c, e = n.__contains__(code)
            path.check('no code is in', e is None and path.decide(zb(lib.term(path.interp, c))) is False)
        code = get(path, n.s, 'code')
        path.check('the node keeps its code', isinstance(code, AbsRef))
        path.cover('cleared')
    return run


def exclude(path):
    """Profiler.exclude_code forgets exactly the node of that code, whether there is one or not."""
    p = new(path, 'profiling.profiler:Profiler')
    n = Node(path, REC)
    path.interp.setattr(p, 'stats', n.s)
    r, e = attempt(path, lambda: call(path, get(path, p, 'exclude_code'), n.code))
    path.check('does not fail', e is None)
    g, e = n.get_child(n.code)
    path.check('the code has no node any more', is_exc(path, e, 'KeyError'))
    n.measures('exclude')
    n.agree('exclude')
    n.check_other('exclude')


contract('C09', 'Profiler.exclude_code', ['profiling.profiler'])(exclude)
for _q in (REC, VOID):
    _n = _q.split(':')[1]
    for _a in (None, REC, VOID):
        contract('C09', '%s.ensure_child(code, %s)' % (_n, _a and _a.split(':')[1]), ['profiling.stats'])(ensure(_q, _a))
    for _op in ('get_child', '__contains__', 'add_child', 'remove_child', 'discard_child'):
        contract('C09', '%s.%s' % (_n, _op), ['profiling.stats'])(operation(_q, _op))
    contract('C09', '%s.clear' % _n, ['profiling.stats'])(clear(_q))

ASSUMPTIONS = ['two codes are the same key iff they are the same object (equal code objects are taken as one code)',
               'dictionaries keep the order of insertion (Python 3.7 or later)']
