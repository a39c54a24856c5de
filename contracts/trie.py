"""The tree of recorded statistics, as seen from one arbitrary position.

A position is a call path: the root, or child(position, code).  The contract of ensure_child / get_child (property C09,
proved there on the real classes) is restated here per position: of all the nodes only the one at an arbitrary position
KAPPA is tracked (presence, absent or counting, hits, time); what is known of KAPPA is known of every position.
A node object is a position together with whether it is an absent node (an absent node object records nothing).
"""
from .common import *

child_f = uf('child', U, U, U)
node_f = uf('node', U, B, U)
pos_f = uf('node.pos', U, U)
origin_f = uf('root position of', U, U)     # positions of a tree that was cleared are not those of the new one
void_f = uf('node.void', U, B)
ROOT = z3.Const('root position', U)


NODE = Kind('node', handler=lambda I, o, name: I.path.trie.getattr(I, o, name))
NODE.setattr = lambda I, o, name, v: I.path.trie.setattr(I, o, name, v)
NODE.isinstance = lambda I, o, c: I.path.trie.isinstance(I, o, c)
NODE.pyclass = lambda I, o: I.path.trie.pyclass(I, o)
NODE.truth = lambda I, o: SV('bool', I.path.fresh('has children', B))


class Walk(object):
    """Where a list of frames (or codes) leads to from a position, and whether KAPPA is passed after the start."""

    def __init__(self, path, kappa, fns=()):
        self.path, self.kappa, self.fns = path, kappa, fns

    def step(self, pos, v):
        for g in self.fns:
            v = g(v)
        return child_f(pos, self.path.to_u(v) if v.kind is CODE else FRAME.attr_u(v.t, 'f_code'))

    def eval(self, pos, seq):
        passed = z3.BoolVal(False)
        for p in self.path.norm(seq):
            if isinstance(p, Unit):
                pos = self.step(pos, p.v)
                passed = z3.Or(passed, pos == self.kappa)
            else:
                end = Fold('position', self.step).eval(self.path, pos, (p,))
                passed, pos = z3.Or(passed, self.atom(pos, p)), end
        return pos, z3.simplify(passed)

    def atom(self, pos, p):
        path = self.path
        S = z3.Const('#s', U)
        key = self.step(S, p.value(z3.Const('#e', U))).sexpr()
        rev = p.rev and p.base not in path.palindromes
        term = uf('passes%s<%s>' % (' back' if rev else '', key), U, SeqS, U, B)(pos, p.base.t, self.kappa)
        k = ('passes', rev, key, pos.sexpr(), self.kappa.sexpr())
        if k not in path.measured.get(p.base, {}):
            w = Walk(path, self.kappa, tuple(p.fns) + tuple(self.fns))

            def ev(parts):
                return w.eval(pos, path.rev(parts) if rev else parts)[1]
            path.register(p.base, k, term, ev)
            path.add(z3.Implies(LEN.atom(path, Var(p.base)) == 0, z3.Not(term)))
            if p.base in path.rewrites:
                path.add(term == ev(path.rewrites[p.base]))
        return term


class Trie(object):

    def __init__(self, path):
        self.path = path
        path.trie = self
        self.kind = NODE
        self.void_cls = cls(path, 'profiling.stats:VoidRecordingStatistics')
        self.rec_cls = cls(path, 'profiling.stats:RecordingStatistics')
        self.kappa = path.fresh('kappa', U)
        path.add(U.is_ref(self.kappa))
        path.add(z3.And(U.is_ref(ROOT), origin_f(ROOT) == ROOT, origin_f(self.kappa) == ROOT))
        self.rootpos = ROOT
        g = path.ghost.d
        g['present'] = SV('bool', path.fresh('present', B))
        g['void'] = SV('bool', path.fresh('void', B))
        g['hits'] = SV('int', path.fresh('hits', INT))
        g['time'] = SV('real', path.fresh('time', REAL))
        g['total'] = SV('int', path.fresh('total hits', INT))
        g['version'] = SV('int', z3.IntVal(0))
        path.add(self.invariant())
        path.add(z3.Implies(self.kappa == ROOT, self.g('present')))
        self.entry = dict(g)
        self.touched = []
        self.empty_at = None
        self.root_obj = None
        self.stored = []     # (position, hits written)

    # the ghost state ---
    def mark(self):
        """Take the present state as the one to compare with."""
        self.entry = dict(self.path.ghost.d)

    def clear(self, o):
        """The root is cleared: a new empty tree, in which another arbitrary position is looked at."""
        path = self.path
        if not path.must(self.pos(o) == self.rootpos):
            raise Unsupported('a part of the tree is cleared')
        self.rootpos = path.fresh('root position', U)
        self.kappa = path.fresh('kappa', U)
        path.add(z3.And(U.is_ref(self.rootpos), U.is_ref(self.kappa), origin_f(self.rootpos) == self.rootpos,
                        origin_f(self.kappa) == self.rootpos, self.rootpos != ROOT))
        self.put('present', self.kappa == self.rootpos)
        self.put('void', z3.BoolVal(False))
        self.put('hits', z3.IntVal(0))
        self.put('time', z3.RealVal(0))
        self.put('total', z3.IntVal(0))
        self.change()
        self.empty_at = (self.rootpos, self.g('version'))

    def g(self, k):
        return self.path.ghost.d[k].t

    def e(self, k):
        return self.entry[k].t

    def put(self, k, t):
        kind = self.path.ghost.d[k].kind
        self.path.write(self.path.ghost, k, SV(kind, z3.simplify(t)))

    def invariant(self):
        """Absent nodes and unrecorded positions have no hits."""
        return z3.And(z3.Implies(z3.Not(self.g('present')), z3.And(z3.Not(self.g('void')), self.g('hits') == 0, self.g('time') == 0)),
                      z3.Implies(self.g('void'), self.g('hits') == 0))

    def at(self, pos, what, sort):
        """The value at any position, in the present version of the tree."""
        other = uf('tree.' + what, U, INT, sort)(pos, self.g('version'))
        if self.empty_at is not None and not self.path.interp.pure:
            self.path.add(z3.Implies(z3.And(origin_f(pos) == self.empty_at[0], self.g('version') == self.empty_at[1]), other == {
                'present': z3.BoolVal(False), 'void': z3.BoolVal(False), 'hits': z3.IntVal(0), 'time': z3.RealVal(0)}[what]))
        return z3.If(pos == self.kappa, self.g(what), other)

    def change(self):
        self.put('version', self.g('version') + 1)

    # positions and nodes ---
    def node(self, pos, void):
        t = node_f(pos, void)
        self.path.add(z3.And(U.is_ref(t), U.uid(t) >= 0, pos_f(t) == pos, void_f(t) == void))
        return AbsRef(self.kind, t)

    def root(self):
        if self.root_obj is None:
            self.root_obj = self.node(ROOT, z3.BoolVal(False))
        return self.root_obj

    def child(self, pos, code):
        c = child_f(pos, self.path.to_u(code))
        if not self.path.interp.pure:
            self.path.add(z3.And(U.is_ref(c), c != ROOT, c != self.rootpos, origin_f(c) == origin_f(pos)))
        return c

    def pos(self, o):
        return pos_f(o.t) if self.rootpos is ROOT else z3.If(pos_f(o.t) == ROOT, self.rootpos, pos_f(o.t))

    def walk(self, frames, pos=None):
        """(position reached, whether KAPPA was passed) after a list of frames"""
        return Walk(self.path, self.kappa).eval(self.rootpos if pos is None else pos, frames)

    def leads(self, frames, node, passed):
        """where the frames lead to from a node, and whether KAPPA is passed on the way or was before"""
        pos = self.pos(AbsRef(NODE, self.path.to_u(node)))
        out = None
        for when, part in reversed(frames if isinstance(frames, list) else [(True, frames)]):
            a, b = self.walk(part, pos)
            t = U.cons(a, U.bool(z3.Or(b, passed)))
            out = t if out is None else z3.If(when, t, out)
        return out

    def backwards(self, q):
        q = q()
        if isinstance(q, list):
            raise engine.NA()
        return self.path.rev(self.path.norm(q))

    def from_index(self, seq, n):
        """The parts of a list from an index on: cases where it is not known whether the index is in the last part."""
        p = self.path
        ps = p.norm(seq)
        try:
            return p.split_at(ps, n)[1]
        except (Unsupported, engine.NA):
            if len(ps) < 2 or not isinstance(ps[-1], Unit):
                raise engine.NA()
            m = p.length(ps[:-1])
            rest = p.split_at(ps[:-1], z3.If(n <= m, n, m))[1]
            return [(n <= m, rest + ps[-1:]), (True, ())]

    def to_come(self, lv):
        """(name, now, at entry) of what is left of the lists of frames (or codes) of a loop."""
        p = self.path
        frames = (('ref', FRAME), ('ref', CODE))
        for label, s, s0, k in lv.seq_locs():
            if k in frames and not lv.is_for:
                yield label, s, s0
        if lv.is_for:
            return
        here = lv.cut.frames[-1].d
        lists = [(n, v.d['seq'] if isinstance(v, PyList) else v.seq) for n, v in list(here.items())
                 if isinstance(v, (PyList, SeqVal))]
        for loc in lv.numeric():
            if lv.kind(loc) == 'int' and loc[0] != p.ghost.serial:
                for n, seq in lists:
                    def rest(at, seq=seq):
                        return self.from_index(seq, num(p, at))
                    yield ('%s[%s:]' % (n, lv.label(loc)), lambda rest=rest, loc=loc: rest(lv.val(loc)),
                           lambda rest=rest, loc=loc: rest(lv.entry(loc)))

    # the operations of a node ---
    def is_void_class(self, c):
        if not isinstance(c, PyClass):
            raise Unsupported('class of statistics %r' % (c,))
        if not c.issub(self.rec_cls):
            raise Unsupported('class of statistics %r' % (c,))
        return c.issub(self.void_cls)

    def pyclass(self, I, o):
        return self.void_cls if self.path.decide(void_f(o.t)) else self.rec_cls

    def isinstance(self, I, o, c):
        if c is self.void_cls:
            return void_f(o.t)
        if isinstance(c, PyClass) and self.rec_cls.issub(c):
            return True
        return NotImplemented

    def ensure(self, o, code, want=None):
        pos = self.pos(o)
        c = self.child(pos, code)
        wv = z3.BoolVal(self.is_void_class(want)) if want is not None else void_f(o.t)
        present, void = self.at(c, 'present', B), self.at(c, 'void', B)
        nv = z3.And(wv, z3.Or(z3.Not(present), void))
        here = c == self.kappa
        emptied = z3.And(here, z3.Or(z3.Not(present), z3.And(void, z3.Not(wv))))
        nv, emptied = z3.simplify(nv), z3.simplify(emptied)
        self.put('hits', z3.If(emptied, 0, self.g('hits')))
        self.put('time', z3.If(z3.And(here, z3.Not(present)), 0, self.g('time')))
        self.put('void', z3.If(here, nv, self.g('void')))
        self.put('present', z3.Or(here, self.g('present')))
        self.touched.append(c)
        return self.node(c, nv)

    def get(self, o, code):
        path = self.path
        c = self.child(self.pos(o), code)
        if not path.decide(self.at(c, 'present', B)):
            raise path.interp.exc('KeyError', code)
        return self.node(c, self.at(c, 'void', B))

    def contains(self, o, code):
        return SV('bool', self.at(self.child(self.pos(o), code), 'present', B))

    def getattr(self, I, o, name):
        path = self.path
        if name == 'own_hits':
            return SV('int', z3.If(void_f(o.t), 0, self.at(self.pos(o), 'hits', INT)))
        if name == 'deep_time':
            return SV('real', self.at(self.pos(o), 'time', REAL))
        if name == '__class__':
            return self.pyclass(I, o)
        if name == 'clear':
            return Builtin(name, lambda I, a, k: self.clear(o))
        f = {'ensure_child': lambda I, a, k: self.ensure(o, a[0], *(list(a[1:]) + list(k.values()))),
             'get_child': lambda I, a, k: self.get(o, *a, **k),
             '__contains__': lambda I, a, k: self.contains(o, *a)}.get(name)
        if f is None:
            raise Unsupported('%s of recorded statistics in a tree' % name)
        return Builtin(name, f)

    def setattr(self, I, o, name, v):
        pos, void = self.pos(o), void_f(o.t)
        here = z3.And(pos == self.kappa, z3.Not(void))
        if name == 'own_hits':
            n = num(self.path, v)
            old = self.at(pos, 'hits', INT)
            self.put('total', self.g('total') + z3.If(void, 0, n - old))
            self.put('hits', z3.If(here, n, self.g('hits')))
        elif name == 'deep_time':
            n = num(self.path, v)
            n = z3.ToReal(n) if z3.is_int(n) else n
            self.put('time', z3.If(here, n, self.g('time')))
        else:
            raise Unsupported('setting %s of recorded statistics' % name)
        self.change()
        return None

    # loop invariants ---
    def candidates(self, lv):
        p = self.path
        for loc in lv.numeric():
            if lv.kind(loc) == 'int' and loc[0] != p.ghost.serial:
                yield ('%s >= 0' % lv.label(loc), lambda loc=loc: num(p, lv.val(loc)) >= 0)
                for n, v in list(lv.cut.frames[-1].d.items()):
                    if isinstance(v, (PyList, SeqVal)):
                        yield ('%s within %s' % (lv.label(loc), n), lambda loc=loc, v=v:
                               num(p, lv.val(loc)) <= p.length(v.d['seq'] if isinstance(v, PyList) else v.seq))
        if lv.is_for:
            w = lambda: self.walk(lv.P)
            r = lambda: self.walk(p.rev(p.norm(lv.P)))
            for loc in lv.refs('node'):
                yield ('%s is at walk(P)' % lv.label(loc), lambda loc=loc: self.pos(AbsRef(NODE, p.to_u(lv.val(loc)))) == w()[0])
            yield ('present iff before or passed', lambda: self.g('present') == z3.Or(self.e('present'), w()[1]))
        yield ('present if before', lambda: z3.Implies(self.e('present'), self.g('present')))
        yield ('void if newly added', lambda: z3.Implies(z3.Not(self.e('present')), self.g('void') == self.g('present')))
        for label, s, s0 in self.to_come(lv):
            for back in (False, True):
                part = self.backwards if back else (lambda q: q())
                for loc in lv.refs('node'):
                    yield ('the rest of %s%s from %s leads to the same' % (label, ' reversed' if back else '', lv.label(loc)),
                           lambda s=s, s0=s0, part=part, loc=loc: self.leads(part(s), lv.val(loc), self.g('present')) ==
                           self.leads(part(s0), lv.entry(loc), lv.entry((p.ghost.serial, 'present')).t))
        yield ('void as before if present', lambda: z3.Implies(self.e('present'), self.g('void') == self.e('void')))
        yield ('same hits', lambda: self.g('hits') == self.e('hits'))
        yield ('same time', lambda: self.g('time') == self.e('time'))
        yield ('same total', lambda: self.g('total') == self.e('total'))
        yield ('nothing recorded', lambda: self.g('version') == self.e('version'))
        yield ('tree invariant', lambda: self.invariant())


def frame_stack_model(path, frame, stack, settings=()):
    """The contract of the stack capture (C01): the list of the profiled frames of that frame."""
    def fn(path, a, k):
        args = [x for x in a if not isinstance(x, PyObj)]
        path.check('the stack of the frame of the event is captured', len(args) >= 1 and eq(path, args[0], frame))
        return PyList(stack, 'deque')
    path.interp.models['profiling.profiler:Profiler.frame_stack'] = fn


def captured(path, *frames):
    """(captured stack, stack of the callers) of the first frame: it is the last one itself unless it is left out."""
    frame = frames[0]
    X = Var(path.new_seq(('ref', FRAME), 'callers', facts=lambda path, u: [path.add(u != f.t) for f in frames]))
    if path.choose(2, 'the frame is left out'):
        return (X,), (X,)
    return (X, Unit(frame)), (X,)


def another(path, frame, X, frame2):
    """How a second captured stack may be related to a first one: (stack, callers), covering all cases."""
    how = path.choose(3, 'the second frame')
    back, back2 = (FRAME.attr_u(f.t, 'f_back') for f in (frame, frame2))
    if how == 0:
        path.assume(frame2.t == frame.t)
        Y = X
    elif how == 1:
        path.assume(z3.And(frame2.t != frame.t, back2 == back))
        Y = X
    else:
        path.assume(z3.And(frame2.t != frame.t, back2 != back))
        Y = Var(path.new_seq(('ref', FRAME), 'other callers', facts=lambda path, u: path.add(u != frame2.t)))
    if path.choose(2, 'the second frame is left out'):
        return (Y,), (Y,)
    return (Y, Unit(frame2)), (Y,)
