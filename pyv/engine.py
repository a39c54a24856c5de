"""Path exploration by replay, obligations, sequences and measures.

A proof harness is a host function run over and over; every run follows one path
of the real code.  `Path.decide` forks on symbolic conditions; alternatives are
explored by replaying the recorded decisions.  Every obligation is a formula that
must be valid under the path condition and is discharged by the solver.
"""
import time
import z3
from .terms import U, SeqS, intern_id, realval, uf, B, I, R
from .values import *
from . import values


class PathEnd(BaseException):
    pass


class Restart(BaseException):
    pass


class NA(BaseException):
    """A candidate invariant that does not apply to the present state."""


class World(object):
    """All mutable engine objects; everything is undone at the end of a path."""

    def __init__(self):
        self.reg = []
        self.path = None
        Mutable.world = self

    def register(self, obj):
        self.reg.append(obj)
        return len(self.reg) - 1

    def freeze(self):
        self.base = len(self.reg)


class Stats(object):
    def __init__(self):
        self.solver_s = 0.0
        self.queries = 0
        self.paths = 0
        self.restarts = 0
        self.second = {}


class Obligation(object):
    def __init__(self, contract, name, where, status, model=None, kind='post', detail=None, hints=None):
        self.contract = contract
        self.name = name
        self.where = where
        self.status = status
        self.model = model
        self.kind = kind
        self.detail = detail
        self.hints = hints


class LoopState(object):
    def __init__(self):
        self.mod = {}
        self.dropped = set()
        self.why = {}


class Explorer(object):
    def __init__(self, world, interp, name, harness, opts=None, stats=None, deadline=None, second=None):
        self.world = world
        self.interp = interp
        self.name = name
        self.harness = harness
        self.opts = opts or {}
        self.stats = stats or Stats()
        self.loops = {}
        self.cutnodes = set()
        self.growing = set()      # loops over a list which changes meanwhile
        self.deadline = deadline
        self.second = second      # second solver (thorough tier)
        self.covered = set()
        self.max_paths = self.opts.get('max_paths', 4000)

    def run(self):
        for n in range(400):
            self.obls = {}
            self.cache = {}
            self.completed = 0
            self.covers = {}
            self.inv = {}
            stack = [()]
            try:
                while stack:
                    prefix = stack.pop()
                    path = Path(self, prefix)
                    self.stats.paths += 1
                    if self.deadline and time.time() > self.deadline:
                        raise Unsupported('time budget exhausted')
                    if self.stats.paths > self.max_paths:
                        raise Unsupported('path budget exhausted')
                    try:
                        self.world.path = path
                        path.ghost = Ghost()
                        self.harness(path)
                        self.completed += 1
                    except PathEnd:
                        pass
                    except PyExc as e:
                        path.check('no-unexpected-exception', z3.BoolVal(False), detail='%r %r' % (e.value, getattr(e.value, 'd', None)))
                    finally:
                        path.undo()
                        self.world.path = None
                    stack.extend(path.alts)
            except Restart:
                self.stats.restarts += 1
                continue
            return list(self.obls.values())
        raise Unsupported('invariant inference did not converge')


class Ghost(Mutable):
    __slots__ = ()


class Path(object):
    def __init__(self, ex, prefix):
        self.ex = ex
        self.interp = ex.interp
        self.prefix = prefix
        self.trace = []
        self.alts = []
        self.solver = z3.Solver()
        self.solver.set('timeout', ex.opts.get('timeout_ms', 8000))
        self.facts = []
        self.journal = []
        self.log = []
        self.nfresh = 0
        self.rewrites = {}
        self.palindromes = set()    # atoms known to equal their reverse
        self.measured = {}
        self.atoms = {}
        self.keep = []
        self.at_facts = set()
        self.active = {}
        self.nq = 0
        self.scope = ()        # queries are numbered per scope: which of them are asked may differ between replays
        self.decisions = 0     # number of symbolic decisions taken (forced or not)
        self.hints = {}
        self.assumed_kind = set()
        ex.interp.reset(self)

    # state ---------------------------------------------------------------
    def write(self, obj, key, value):
        if self.interp is not None and self.interp.pure and obj.serial < self.interp.pure_base:
            raise NotPure()
        self.journal.append((obj, key, obj.d.get(key, MISSING)))
        self.log.append((obj.serial, key))
        if value is MISSING:
            obj.d.pop(key, None)
        else:
            obj.d[key] = value

    def undo(self):
        for obj, key, old in reversed(self.journal):
            if old is MISSING:
                obj.d.pop(key, None)
            else:
                obj.d[key] = old
        del self.ex.world.reg[self.ex.world.base:]

    # logic ---------------------------------------------------------------
    def fresh(self, name, sort):
        self.nfresh += 1
        return z3.Const('%s!%d' % (name, self.nfresh), sort)

    def add(self, f):
        if f is True:
            return
        if f is False:
            f = z3.BoolVal(False)
        self.facts.append(f)
        self.solver.add(f)

    def _sat(self, *assumps):
        t = time.time()
        r = self.solver.check(*assumps)
        self.ex.stats.solver_s += time.time() - t
        self.ex.stats.queries += 1
        return r

    def _cached(self, kind, fn):
        self.nq += 1
        k = (tuple(self.trace), self.scope, self.nq, kind)
        c = self.ex.cache
        if k not in c:
            c[k] = fn()
        return c[k]

    def scoped(self, tag, fn):
        """fn(), whose queries do not shift the numbers of later ones"""
        saved = self.scope, self.nq
        self.scope, self.nq = self.scope + (self.nq, tag), 0
        try:
            return fn()
        finally:
            self.scope, self.nq = saved

    def must(self, f):
        """Is f valid here?  (never forks)"""
        if isinstance(f, bool):
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return self._cached('must0', lambda: self._sat() == z3.unsat)
        return self._cached('must', lambda: self._sat(z3.Not(f)) == z3.unsat)

    def feasible(self, f=True):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        return self._cached('feas', lambda: self._sat(f) != z3.unsat)

    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise PathEnd()
            return
        self.add(f)

    def decide(self, f):
        if isinstance(f, bool):
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        if self.interp.pure:
            if self.must(f):
                return True
            if self.must(z3.Not(f)):
                return False
            raise NotPure()
        self.decisions += 1
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            ct = self._sat(f) != z3.unsat
            cf = self._sat(z3.Not(f)) != z3.unsat
            if ct and cf:
                self.alts.append(tuple(self.trace) + (False,))
                v = True
            elif ct:
                v = True
            elif cf:
                v = False
            else:
                raise PathEnd()
        self.trace.append(v)
        self.nq = 0
        self.add(f if v else z3.Not(f))
        return v

    def choose(self, n, label=''):
        """Pick one of n alternatives; all of them are explored."""
        if n == 1:
            return 0
        if self.interp.pure:
            raise NotPure()
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            for k in range(1, n):
                self.alts.append(tuple(self.trace) + (('c', k),))
            v = ('c', 0)
        self.trace.append(v)
        self.nq = 0
        return v[1]

    def check(self, name, f, kind='post', detail=None):
        """An obligation: f is valid here."""
        if isinstance(f, (list, tuple)):
            f = z3.And([z3.BoolVal(x) if isinstance(x, bool) else x for x in f])
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        self.nq += 1
        k = (tuple(self.trace), self.scope, self.nq, name)
        obls = self.ex.obls
        if k not in obls:
            where = self.interp.where()
            g = z3.simplify(f)
            if z3.is_true(g):
                st, m = 'proved', None
            else:
                r = self._sat(z3.Not(f))
                m = None
                if r == z3.unsat:
                    st = 'proved'
                    if self.ex.second:
                        self.ex.second(self, f, name)
                elif r == z3.sat:
                    st = 'refuted'
                    m = self.solver.model()
                else:
                    st = 'unknown'
            hints = None
            if m is not None:
                hints = {}
                for hn, ht in self.hints.items():
                    try:
                        hints[hn] = model_value(m, ht)
                    except Exception:
                        pass
            obls[k] = Obligation(self.ex.name, name, where, st, model=(str(m)[:4000] if m is not None else None),
                                 kind=kind, detail=detail or (str(z3.simplify(f))[:1500] if st != 'proved' else None), hints=hints)
        if obls[k].status != 'proved':
            self.add(f)
        return obls[k].status == 'proved'

    def valid(self, f):
        """Validity, for candidate invariants."""
        if isinstance(f, bool):
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        return self._cached('valid', lambda: self._sat(z3.Not(f)) == z3.unsat)

    def cover(self, name):
        """The path must be reachable (vacuity guard)."""
        if name not in self.ex.covers or not self.ex.covers[name]:
            self.ex.covers[name] = self._sat() == z3.sat

    def hint(self, name, v):
        self.hints[name] = v

    # kinds ---------------------------------------------------------------
    def from_u(self, kind, u):
        k = kind if isinstance(kind, str) else kind[0]
        if k == 'int':
            return SV('int', U.ui(u))
        if k == 'real':
            return SV('real', U.ur(u))
        if k == 'bool':
            return SV('bool', U.ub(u))
        if k in ('any', 'str', 'bytes'):
            return SV(k, u)
        if k == 'none':
            return None
        if k == 'ref':
            return AbsRef(kind[1], u)
        if k == 'opt':
            return Opt(U.is_none(u), self.from_u(kind[1], u))
        if k == 'tup':
            out = []
            for x in kind[1]:
                out.append(self.from_u(x, U.hd(u)))
                u = U.tl(u)
            return tuple(out)
        if k == 'const':
            return kind[1]
        raise Unsupported('kind %r' % (kind,))

    def kind_fact(self, kind, u):
        """What is known of a U term that stands for a value of this kind."""
        k = kind if isinstance(kind, str) else kind[0]
        if k == 'int':
            return U.is_int(u)
        if k == 'real':
            return U.is_real(u)
        if k == 'bool':
            return U.is_bool(u)
        if k == 'str':
            return U.is_str(u)
        if k == 'none':
            return U.is_none(u)
        if k == 'ref':
            f = z3.And(U.is_ref(u), U.uid(u) >= 0)
            extra = kind[1].fact(self, u)
            return f if extra is None else z3.And(f, extra)
        if k == 'opt':
            return z3.Or(U.is_none(u), self.kind_fact(kind[1], u))
        if k == 'tup':
            out = []
            for x in kind[1]:
                out.append(U.is_cons(u))
                out.append(self.kind_fact(x, U.hd(u)))
                u = U.tl(u)
            out.append(U.is_nil(u))
            return z3.And(out)
        return z3.BoolVal(True)

    def fresh_value(self, kind, name='v'):
        k = kind if isinstance(kind, str) else kind[0]
        if k in ('int', 'real', 'bool'):
            return SV(k, self.fresh(name, values.SORTS[k]))
        if k == 'none':
            return None
        if k == 'poison':
            return POISON
        if k == 'const':
            return kind[1]
        if k == 'z3':
            return self.fresh(name, kind[1])
        if k == 'obj':
            return kind[1]
        if k == 'seq':
            return (Var(self.new_seq(kind[1], name)),)
        if k == 'list':
            return PyList((Var(self.new_seq(kind[2], name)),), kind[1])
        if k == 'map':
            return DictC(self.new_map(kind[1], kind[2], name))
        if k == 'tup' and any(not isinstance(x, str) and x[0] in ('list', 'obj', 'z3') for x in kind[1]):
            return tuple(self.fresh_value(x, name) for x in kind[1])
        u = self.fresh(name, U)
        self.add(self.kind_fact(kind, u))
        return self.from_u(kind, u)

    def new_seq(self, kind, name='s', facts=None, unfold=None):
        """A fresh abstract sequence of elements of a kind."""
        t = self.fresh(name, SeqS)
        v = SeqVar(str(t), t, lambda u: self.from_u(kind, u), unfold, facts)
        v.facts = lambda path, u, extra=facts: (path.add(path.kind_fact(kind, u)),
                                                extra and extra(path, u))
        self.keep.append(v)
        return v

    def seq_at(self, name, term, kind, facts=None, unfold=None):
        """The abstract sequence denoted by a SeqS term (one object per term)."""
        key = ('at', name, term.sexpr())
        v = self.atoms.get(key)
        if v is None:
            v = SeqVar('%s(%s)' % (name, term), term, lambda u: self.from_u(kind, u), unfold)
            v.facts = lambda path, u: (path.add(path.kind_fact(kind, u)), facts and facts(path, u))
            self.atoms[key] = v
        return v

    def new_map(self, keykind, valkind, name='m', on_read=None):
        n = str(self.fresh(name, B))
        p = uf(n + '.has', U, B)
        f = uf(n + '.val', U, U)
        keys = None
        if keykind is not None:
            keys = self.new_seq(keykind, name + '.keys', facts=lambda path, u: path.add(p(u)))
            keys.distinct = True
            keys.indexed = ((z3.IntVal(0), lambda i, v: p(self.to_u(v))),)

        def value(k):
            u = f(self.to_u(k))
            if valkind is None:
                return None
            if not self.interp.pure:
                self.add(self.kind_fact(valkind, u))
            return self.from_u(valkind, u)
        m = MapVar(n, lambda k: p(self.to_u(k)), value, keys, on_read)
        m.has_f, m.val_f = p, f
        m.kinds = (keykind if keykind is not None else 'any', valkind if valkind is not None else 'none')
        if getattr(self, 'on_map', None) and keys is not None:
            self.on_map(m)
        return m

    def kind_of(self, v):
        if v is MISSING or v is POISON:
            return 'poison'
        if v is None:
            return 'none'
        if isinstance(v, bool):
            return 'bool'
        if isinstance(v, int):
            return 'int'
        if isinstance(v, float):
            return 'real'
        if isinstance(v, (str, SStr)):
            return 'str'
        if isinstance(v, bytes):
            return 'bytes'
        if isinstance(v, SV):
            return v.kind
        if isinstance(v, Opt):
            return ('opt', self.kind_of(v.val))
        if isinstance(v, AbsRef):
            return ('ref', v.kind)
        if isinstance(v, tuple):
            return ('tup', tuple(self.kind_of(x) for x in v))
        if isinstance(v, z3.ExprRef):
            return ('z3', v.sort())
        if isinstance(v, DictC):
            kk = vk = 'bottom'
            if v.base is not None:
                kk, vk = v.base.kinds if hasattr(v.base, 'kinds') else ('any', 'any')
            return ('map', kk, vk)
        return ('obj', v)

    def seq_kind(self, seq):
        """The kind of the elements of a sequence."""
        k = 'bottom'
        for p in seq:
            if isinstance(p, Unit):
                k = self.join(k, self.kind_of(p.v))
            else:
                k = self.join(k, self.kind_of(p.value(z3.Const('#e', U))))
        return k

    def join(self, a, b):
        if a == b:
            return a
        if a == 'bottom':
            return b
        if b == 'bottom':
            return a
        if a == 'poison' or b == 'poison':
            return 'poison'
        if 'none' in (a, b):
            o = b if a == 'none' else a
            return o if o[0] == 'opt' else ('opt', o)
        num = ['bool', 'int', 'real']
        if a in num and b in num:
            return num[max(num.index(a), num.index(b))]
        ta, tb = (a if isinstance(a, str) else a[0]), (b if isinstance(b, str) else b[0])
        if ta == 'opt' or tb == 'opt':
            x = a[1] if ta == 'opt' else a
            y = b[1] if tb == 'opt' else b
            return ('opt', self.join(x, y))
        if ta == tb == 'tup' and len(a[1]) == len(b[1]):
            return ('tup', tuple(self.join(x, y) for x, y in zip(a[1], b[1])))
        if ta == tb == 'seq':
            return ('seq', self.join(a[1], b[1]))
        if ta in ('obj', 'list') and tb in ('obj', 'list'):
            ls = [x for x in (a, b)]
            ek, kd = 'bottom', None
            for x in ls:
                if x[0] == 'list':
                    kd, ek = kd or x[1], self.join(ek, x[2])
                elif isinstance(x[1], PyList):
                    kd, ek = kd or x[1].kind, self.join(ek, self.seq_kind(self.norm(x[1].d['seq'])))
                else:
                    raise Unsupported('a variable holds different objects in a loop: %r / %r' % (a, b))
            return ('list', kd, ek)
        if ta == tb == 'map':
            return ('map', self.join(a[1], b[1]), self.join(a[2], b[2]))
        if ta in ('any', 'str', 'bytes', 'ref') and tb in ('any', 'str', 'bytes', 'ref'):
            return 'any'
        raise Unsupported('cannot join kinds %r and %r' % (a, b))

    # embedding into U ----------------------------------------------------
    def to_u(self, v):
        if v is None:
            return U.none
        if isinstance(v, bool):
            return U.bool(z3.BoolVal(v))
        if isinstance(v, int):
            return U.int(z3.IntVal(v))
        if isinstance(v, float):
            return U.real(realval(v))
        if isinstance(v, (str, bytes)):
            return U.str(z3.IntVal(intern_id(v)))
        if isinstance(v, SV):
            if v.kind == 'int':
                return U.int(v.t)
            if v.kind == 'real':
                return U.real(v.t)
            if v.kind == 'bool':
                return U.bool(v.t)
            return v.t
        if isinstance(v, AbsRef):
            return v.t
        if isinstance(v, Opt):
            t = self.to_u(v.val)
            if z3.is_false(v.cond) or v.cond.eq(U.is_none(t)):
                return t
            return z3.If(v.cond, U.none, t)
        if isinstance(v, tuple):
            u = U.nil
            for x in reversed(v):
                u = U.cons(self.to_u(x), u)
            return u
        if isinstance(v, Mutable):
            return U.ref(z3.IntVal(-v.serial - 1))
        if isinstance(v, Ext):
            return U.ref(z3.IntVal(-10 ** 9 - intern_id(('ext', v.name))))
        if isinstance(v, (Builtin, PartialV, GenModel)):
            self.keep.append(v)
            return U.ref(z3.IntVal(-2 * 10 ** 9 - intern_id(('id', id(v)))))
        if isinstance(v, BoundMethod):
            return U.cons(self.to_u(v.func), U.cons(self.to_u(v.self), U.nil))
        if isinstance(v, SStr):
            u = U.nil
            for p in reversed(v.parts):
                if isinstance(p, tuple):
                    p = tuple(p)
                u = U.cons(self.to_u(p), u)
            return U.cons(U.str(z3.IntVal(intern_id('#sstr'))), u)
        if isinstance(v, SeqVal):
            ps = self.norm(v.seq)
            if all(isinstance(p, Unit) for p in ps):
                return self.to_u(tuple(p.v for p in ps))
        raise Unsupported('no logical value for %r' % (v,))

    def num(self, v):
        """The z3 arithmetic term of a number."""
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, float):
            return realval(v)
        if isinstance(v, SV) and v.kind in ('int', 'real'):
            return v.t
        if isinstance(v, SV) and v.kind == 'bool':
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, z3.ArithRef):
            return v
        raise Unsupported('not a number: %r' % (v,))

    def is_num(self, v):
        return isinstance(v, (bool, int, float)) or (isinstance(v, SV) and v.kind in ('int', 'real', 'bool'))

    def eq(self, a, b):
        """Python == without user-defined __eq__; a host bool or a z3 Bool."""
        if a is b and not isinstance(a, float):
            return True
        if isinstance(a, Opt) or isinstance(b, Opt):
            if not isinstance(a, Opt):
                a, b = b, a
            if b is None:
                return a.cond
            if isinstance(b, Opt):
                e = self.eq(a.val, b.val)
                return z3.Or(z3.And(a.cond, b.cond), z3.And(z3.Not(a.cond), z3.Not(b.cond), zb(e)))
            return z3.And(z3.Not(a.cond), zb(self.eq(a.val, b)))
        if self.is_num(a) and self.is_num(b):
            if not isinstance(a, SV) and not isinstance(b, SV):
                return a == b
            if all(isinstance(x, bool) or (isinstance(x, SV) and x.kind == 'bool') for x in (a, b)):
                return zb(a.t if isinstance(a, SV) else a) == zb(b.t if isinstance(b, SV) else b)
            return self.num(a) == self.num(b)
        consts = (type(None), bool, int, float, str, bytes)
        if isinstance(a, consts) and isinstance(b, consts):
            return a == b
        if isinstance(a, (tuple, SeqVal)) and isinstance(b, (tuple, SeqVal)):
            return self.seq_eq(as_seq(a), as_seq(b))
        if isinstance(a, tuple) != isinstance(b, tuple) and not (isinstance(a, SV) or isinstance(b, SV)):
            return False
        if isinstance(a, PyList) and isinstance(b, PyList):
            if a.kind != b.kind:
                return False
            return self.seq_eq(a.d['seq'], b.d['seq'])
        if isinstance(a, SStr) or isinstance(b, SStr):
            return self.sstr_eq(a, b)
        plain = (AbsRef, Mutable, Ext, Builtin, PartialV, BoundMethod)
        if isinstance(a, plain) and isinstance(b, consts) or isinstance(b, plain) and isinstance(a, consts):
            if isinstance(a, AbsRef) and b is not None or isinstance(b, AbsRef) and a is not None:
                return False
            return False
        if isinstance(a, BoundMethod) and isinstance(b, BoundMethod):
            return z3.And(zb(self.eq(a.func, b.func)), zb(self.eq(a.self, b.self)))
        if isinstance(a, SV) and self.is_num(a) and not isinstance(b, SV):
            return False
        if isinstance(b, SV) and self.is_num(b) and not isinstance(a, SV):
            return False
        if not isinstance(a, (SV, AbsRef, tuple)) and not isinstance(b, (SV, AbsRef, tuple)):
            if isinstance(a, plain) and isinstance(b, plain):
                return a is b or (isinstance(a, Ext) and isinstance(b, Ext) and a.name == b.name)
        return z3.simplify(self.to_u(a) == self.to_u(b))

    def sstr_eq(self, a, b):
        pa = a.parts if isinstance(a, SStr) else ((a,) if a != '' else ())
        pb = b.parts if isinstance(b, SStr) else ((b,) if b != '' else ())
        if len(pa) == len(pb):
            out = []
            for x, y in zip(pa, pb):
                if isinstance(x, str) and isinstance(y, str):
                    if x != y:
                        out = None
                        break
                elif isinstance(x, tuple) and isinstance(y, tuple) and x[:2] == y[:2]:
                    out.append(zb(self.eq(x[2], y[2])))
                elif isinstance(x, SV) and isinstance(y, SV):
                    out.append(zb(self.eq(x, y)))
                else:
                    out = None
                    break
            if out is not None:
                return z3.And(out) if out else True
        raise Unsupported('comparison of formatted strings %r %r' % (a, b))

    # sequences -----------------------------------------------------------
    def norm(self, seq):
        """Replace the atoms that have been taken apart by their parts."""
        out = []
        for p in seq:
            if isinstance(p, Unit):
                out.append(p)
                continue
            b = p.base
            if b not in self.rewrites and b.unfold is not None:
                r = b.unfold(self)
                if r is not None:
                    self.bind(b, r)
            if b in self.rewrites:
                sub = self.norm(self.rewrites[b])
                if p.fns:
                    sub = tuple(self.mapped(x, p.fns, p.key) for x in sub)
                if p.rev:
                    sub = self.rev(sub)
                out.extend(sub)
            elif p.rev and b in self.palindromes:
                out.append(Var(b, p.fns, p.key))
            else:
                out.append(p)
        return tuple(out)

    def mapped(self, p, fns, key):
        if isinstance(p, Unit):
            v = p.v
            for f in fns:
                v = f(v)
            return Unit(v)
        return Var(p.base, p.fns + tuple(fns), p.key + '|' + key if p.key else key, p.rev)

    def rev(self, seq):
        return tuple(p if isinstance(p, Unit) else Var(p.base, p.fns, p.key, not p.rev)
                     for p in reversed(seq))

    def bind(self, b, parts):
        self.rewrites[b] = tuple(parts)
        self.keep.append(b)
        for key, (term, ev) in list(self.measured.get(b, {}).items()):
            self.add(term == ev(parts))

    def length(self, seq):
        return LEN.eval(self, seq)

    def empty(self, seq):
        """Truth of emptiness (bool or z3)."""
        ps = self.norm(seq)
        if any(isinstance(p, Unit) for p in ps):
            return False
        if not ps:
            return True
        return z3.And([self.length((p,)) == 0 for p in ps])

    def take_apart(self, p):
        """p is a Var known to be non-empty: split off its first (rev: last) element."""
        b = p.base
        h = self.fresh(b.name.split('!')[0] + '.h', U)
        rest = SeqVar(str(self.nfresh) + "'" , self.fresh(b.name.split('!')[0].split("'")[0] + "'", SeqS), b.elem, None, b.facts)
        rest.name = str(rest.t)
        if b.distinct:
            rest.distinct = True
            rest.indexed += ((z3.IntVal(0), lambda i, v: self.to_u(v) != h),)
        if b.facts:
            b.facts(self, h)
        for off, fn in getattr(b, 'indexed', ()):
            if p.rev:
                self.add(zb(fn(off + self.length((Var(b),)) - 1, b.elem(h))))
                rest.indexed = rest.indexed + ((off, fn),)
            else:
                self.add(zb(fn(off, b.elem(h))))
                rest.indexed = rest.indexed + ((off + 1, fn),)
        if p.rev:
            parts = (Var(rest), Unit(b.elem(h)))
        else:
            parts = (Unit(b.elem(h)), Var(rest))
        self.bind(b, parts)
        return self.norm((p,))

    def first(self, seq):
        """None if empty (decided), else (value, rest)."""
        while True:
            ps = self.norm(seq)
            if not ps:
                return None
            if isinstance(ps[0], Unit):
                return ps[0].v, ps[1:]
            if self.decide(self.length(ps[:1]) == 0):
                self.bind(ps[0].base, ())
                seq = ps[1:]
                continue
            seq = self.take_apart(ps[0]) + ps[1:]

    def last(self, seq):
        r = self.first(self.rev(self.norm(seq)))
        if r is None:
            return None
        return r[0], self.rev(r[1])

    def split_at(self, seq, n):
        """(before, from) at index n, 0 <= n <= len known or decided."""
        n = self.num(n) if not isinstance(n, z3.ArithRef) else n
        ps = self.norm(seq)
        done = ()
        while True:
            if self.must(n == 0):
                return done, ps
            if not ps:
                raise Unsupported('split past the end')
            p = ps[0]
            l = self.length((p,))
            if isinstance(p, Unit):
                if not self.must(n >= 1):
                    if self.interp.pure:
                        raise NA()
                    raise Unsupported('split position unclear')
                done += (p,)
                n = z3.simplify(n - 1)
                ps = ps[1:]
                continue
            if self.must(n >= l):
                done += (p,)
                n = z3.simplify(n - l)
                ps = ps[1:]
                continue
            if not self.must(z3.And(n >= 0, n <= l)):
                if self.interp.pure:
                    raise NA()
                raise Unsupported('split position unclear')
            if p.rev:
                raise Unsupported('split of a reversed atom')
            b = p.base
            a1 = SeqVar('', self.fresh('pre', SeqS), b.elem, None, b.facts)
            a2 = SeqVar('', self.fresh('suf', SeqS), b.elem, None, b.facts)
            a1.name, a2.name = str(a1.t), str(a2.t)
            a1.distinct = a2.distinct = b.distinct
            for off, fn in b.indexed:
                a1.indexed += ((off, fn),)
                a2.indexed += ((off + n, fn),)
            self.bind(b, (Var(a1), Var(a2)))
            self.length((Var(a1),)), self.length((Var(a2),))
            self.add(self.length((Var(a1),)) == n)
            self.add(self.length((Var(a2),)) == l - n)
            q = self.norm((p,))
            return done + q[:1], q[1:] + ps[1:]

    def seq_eq(self, a, b):
        """Equality of two sequences as a bool / z3 Bool (False if not alignable)."""
        a, b = self.norm(a), self.norm(b)
        conj = []
        for _ in range(200):
            if not a and not b:
                return z3.And(conj) if conj else True
            if not a or not b:
                rest = a or b
                if any(isinstance(p, Unit) for p in rest):
                    return False
                return z3.And(conj + [self.length(rest) == 0])
            if isinstance(a[0], Unit) and isinstance(b[0], Unit):
                conj.append(zb(self.eq(a[0].v, b[0].v)))
                a, b = a[1:], b[1:]
                continue
            if self.same_var(a[0], b[0]):
                a, b = a[1:], b[1:]
                continue
            if isinstance(a[-1], Unit) and isinstance(b[-1], Unit):
                conj.append(zb(self.eq(a[-1].v, b[-1].v)))
                a, b = a[:-1], b[:-1]
                continue
            if self.same_var(a[-1], b[-1]):
                a, b = a[:-1], b[:-1]
                continue
            # drop empty atoms
            progress = False
            for s in (a, b):
                for p in s:
                    if isinstance(p, Var) and self.must(self.length((p,)) == 0):
                        self.bind(p.base, ())
                        progress = True
            if progress:
                a, b = self.norm(a), self.norm(b)
                continue
            return False
        return False

    def same_var(self, p, q):
        if not (isinstance(p, Var) and isinstance(q, Var)):
            return False
        if p.base is q.base and p.rev == q.rev and (p.key == q.key or self.same_elements(p, q)):
            return True
        if p.key == q.key and p.rev == q.rev and len(p.fns) == len(q.fns) == 0 or p.key == q.key and p.rev == q.rev:
            if p.base.t.sort() == q.base.t.sort():
                return self.must(p.base.t == q.base.t)
        return False

    def same_elements(self, p, q):
        """Two ways of seeing the same sequence give the same element for every element."""
        pure = self.interp.pure
        self.interp.pure = True
        try:
            a, b = p.value(E_), q.value(E_)
            return bool(z3.simplify(self.to_u(a)).eq(z3.simplify(self.to_u(b))))
        except (NotPure, Unsupported, PyExc):
            return False
        finally:
            self.interp.pure = pure

    def assume_seq_eq(self, a, b):
        """Use an equality of sequences: afterwards both sides normalise alike."""
        for _ in range(50):
            a, b = self.norm(a), self.norm(b)
            while a and b:
                if isinstance(a[0], Unit) and isinstance(b[0], Unit):
                    self.assume(self.eq(a[0].v, b[0].v))
                    a, b = a[1:], b[1:]
                elif self.same_var(a[0], b[0]):
                    a, b = a[1:], b[1:]
                elif isinstance(a[-1], Unit) and isinstance(b[-1], Unit):
                    self.assume(self.eq(a[-1].v, b[-1].v))
                    a, b = a[:-1], b[:-1]
                elif self.same_var(a[-1], b[-1]):
                    a, b = a[:-1], b[:-1]
                else:
                    break
            if not a and not b:
                return True
            if not a or not b:
                rest = a or b
                if any(isinstance(p, Unit) for p in rest):
                    raise PathEnd()
                for p in rest:
                    self.add(self.length((p,)) == 0)
                    self.bind(p.base, ())
                return True
            if (len(a) == len(b) == 1 and isinstance(a[0], Var) and isinstance(b[0], Var) and
                    a[0].base is b[0].base and not a[0].fns and not b[0].fns):
                self.palindromes.add(a[0].base)   # differ in rev only
                return True
            for x, y in ((b, a), (a, b)):
                if len(x) == 1 and isinstance(x[0], Var) and not x[0].fns:
                    base = x[0].base
                    if not any(isinstance(p, Var) and p.base is base for p in y):
                        self.bind(base, self.rev(y) if x[0].rev else y)
                        return True
            return False   # cannot be used; sound to forget
        return False

    def check_indexed(self, seq, fn):
        """Whether fn(index, value) holds for all elements."""
        off, out = z3.IntVal(0), []
        for p in self.norm(seq):
            if isinstance(p, Unit):
                out.append(zb(fn(off, p.v)))
                off = z3.simplify(off + 1)
                continue
            if p.fns or p.rev or not any(f is fn and self.must(o == off) for o, f in p.base.indexed):
                # an arbitrary element
                j, l = z3.FreshConst(I, 'j'), self.length((p,))
                known = [zb(f(o + (l - 1 - j if p.rev else j), p.base.elem(E_))) for o, f in p.base.indexed]
                out.append(z3.Implies(z3.And(j >= 0, j < l, *known), zb(fn(off + j, p.value(E_)))))
            off = z3.simplify(off + self.length((p,)))
        return z3.And(*out) if out else z3.BoolVal(True)

    def assume_indexed(self, seq, fn):
        off = z3.IntVal(0)
        for p in self.norm(seq):
            if isinstance(p, Unit):
                self.add(zb(fn(off, p.v)))
                off = z3.simplify(off + 1)
            else:
                if not p.fns and not p.rev:
                    p.base.indexed += ((off, fn),)
                off = z3.simplify(off + self.length((p,)))

    # measures ------------------------------------------------------------
    def register(self, base, key, term, ev):
        self.measured.setdefault(base, {})[key] = (term, ev)


class NotPure(BaseException):
    pass


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def as_seq(v):
    if isinstance(v, tuple):
        return seq_units(v)
    if isinstance(v, SeqVal):
        return v.seq
    raise Unsupported('not a sequence value %r' % (v,))


def model_value(m, t):
    if isinstance(t, SV):
        t = t.t
    v = m.eval(t, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_true(v) or z3.is_false(v):
        return z3.is_true(v)
    return str(v)


E_ = z3.Const('#e', U)


def _contains(t, sub):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(sub):
            return True
        todo.extend(x.children())
    return False


def skeleton(t, *bound):
    """(text, arguments): t with its maximal subterms that are free of the bound
    constants replaced by placeholders, so that equal arguments give equal terms."""
    args, seen = [], {}

    def walk(x):
        if not any(_contains(x, b) for b in bound):
            if z3.is_int_value(x) or z3.is_rational_value(x) or z3.is_true(x) or z3.is_false(x):
                return x
            if x.num_args() == 0 and x.sort() == U and x.decl().name() in ('none', 'nil'):
                return x
            k = x.sexpr()
            if k not in seen:
                seen[k] = z3.Const('#a%d' % len(args), x.sort())
                args.append(x)
            return seen[k]
        if x.num_args() == 0:
            return x
        ch = [walk(c) for c in x.children()]
        return x.decl()(*ch)
    s = walk(t)
    return s.sexpr(), args


class Sum(object):
    """A homomorphism from sequences to numbers: the sum of unit(value)."""

    def __init__(self, name, unit, sort=I, nonneg=False):
        self.name = name
        self.unit = unit
        self.sort = sort
        self.nonneg = nonneg

    def lift(self, x):
        if isinstance(x, SV):
            x = x.t
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, (int, float)):
            return realval(x) if self.sort == R else z3.IntVal(x)
        if self.sort == R and z3.is_int(x):
            return z3.ToReal(x)
        return x

    def eval(self, path, seq):
        terms = []
        for p in path.norm(seq):
            if isinstance(p, Unit):
                terms.append(self.lift(self.unit(p.v)))
            else:
                terms.append(self.atom(path, p))
        if not terms:
            return self.lift(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def atom(self, path, p):
        pure = path.interp.pure
        path.interp.pure = True
        try:
            t = z3.simplify(self.lift(self.unit(p.value(E_))))
        except NotPure:
            raise Unsupported('measure %s is not a plain term' % self.name)
        finally:
            path.interp.pure = pure
        if not _contains(t, E_):
            l = LEN.atom(path, p) if self is not LEN else None
            if l is None:
                return self._reg(path, p, 'len', z3.IntVal(1), uf('len', SeqS, I))
            if z3.is_int_value(t) or z3.is_rational_value(t):
                return t * (z3.ToReal(l) if self.sort == R else l)
            if z3.is_app_of(t, z3.Z3_OP_ITE) and all(z3.is_int_value(x) or z3.is_rational_value(x) for x in t.children()[1:]):
                l = z3.ToReal(l) if self.sort == R else l
                return z3.If(t.arg(0), t.arg(1) * l, t.arg(2) * l)
        key = t.sexpr()
        sk, args = skeleton(t, E_)
        f = uf('sum<%s>' % sk, SeqS, *([a.sort() for a in args] + [self.sort]))
        return self._reg(path, p, key, t, lambda b: f(b, *args))

    def _reg(self, path, p, key, t, f):
        term = f(p.base.t)
        k = ('sum', key)
        if k not in path.measured.get(p.base, {}):
            fns = p.fns

            def unit(v):
                for g in fns:
                    v = g(v)
                return self.unit(v)
            m = LEN if key == 'len' else Sum(self.name, unit, self.sort, self.nonneg)
            path.register(p.base, k, term, lambda parts: m.eval(path, parts))
            if self.nonneg or key == 'len':
                path.add(term >= 0)
            if key != 'len':
                path.add(z3.Implies(LEN.atom(path, Var(p.base)) == 0, term == self.lift(0)))
            if p.base in path.rewrites:
                path.add(term == m.eval(path, path.rewrites[p.base]))
        return term


LEN = Sum('len', lambda v: 1, I, True)


def count(path, pred, name='count'):
    """How many elements satisfy pred (value -> bool / z3 Bool)."""
    def unit(v):
        c = pred(v)
        if isinstance(c, bool):
            return int(c)
        return z3.If(c, z3.IntVal(1), z3.IntVal(0))
    return Sum(name, unit, I, True)


class Fold(object):
    """A left fold with a state term."""

    def __init__(self, name, step, sort=U):
        self.name = name
        self.step = step
        self.sort = sort

    def eval(self, path, init, seq):
        s = init
        for p in path.norm(seq):
            if isinstance(p, Unit):
                s = self.step(s, p.v)
            else:
                s = self.atom(path, s, p)
        return s

    def atom(self, path, s, p):
        S = z3.Const('#s', self.sort)
        t = self.step(S, p.value(E_))
        if z3.is_app_of(t, z3.Z3_OP_ITE) and not _contains(t.arg(0), E_) and not _contains(t.arg(0), S):
            # a condition that is the same for every element
            return z3.If(t.arg(0), Fold(self.name, lambda s, v: self.step(s, v).arg(1), self.sort).atom(path, s, p),
                         Fold(self.name, lambda s, v: self.step(s, v).arg(2), self.sort).atom(path, s, p))
        if t.eq(S):
            return s
        key = t.sexpr()
        sk, args = skeleton(t, E_, S)
        rev = p.rev and p.base not in path.palindromes
        f = uf('fold%s<%s>' % (' back' if rev else '', sk), *([self.sort, SeqS] + [a.sort() for a in args] + [self.sort]))
        term = f(s, p.base.t, *args)
        k = ('fold', rev, key, s.sexpr())
        if k not in path.measured.get(p.base, {}):
            fns = p.fns

            def step(s, v):
                for g in fns:
                    v = g(v)
                return self.step(s, v)
            m = Fold(self.name, step, self.sort)

            def ev(parts):
                return m.eval(path, s, path.rev(parts) if rev else parts)
            path.register(p.base, k, term, ev)
            path.add(z3.Implies(LEN.atom(path, Var(p.base)) == 0, term == s))
            if p.base in path.rewrites:
                path.add(term == ev(path.rewrites[p.base]))
        return term


class At(object):
    """The element at an index (any value if there is none), projected to a term."""

    def __init__(self, name, proj, sort=U):
        self.name, self.proj, self.sort = name, proj, sort

    def eval(self, path, seq, i):
        return self._eval(path, seq, i, z3.Const('nothing<%s>' % self.sort, self.sort))

    def _eval(self, path, seq, i, out):
        off, terms = z3.IntVal(0), []
        for p in path.norm(seq):
            if isinstance(p, Unit):
                terms.append((i == off, self.proj(p.v)))
                off = off + 1
            else:
                l = LEN.eval(path, (p,))
                terms.append((z3.And(i >= off, i < off + l), self.proj(p.value(self.elem(path, p, i - off, l)))))
                off = off + l
        for c, t in reversed(terms):
            out = z3.If(c, t, out)
        return z3.simplify(out)

    def elem(self, path, p, i, l):
        i = z3.simplify(l - 1 - i if p.rev else i)
        term = uf('at', SeqS, I, U)(p.base.t, i)
        k = ('at', i.sexpr())
        if p.base.facts and not path.interp.pure and (p.base, k) not in path.at_facts:
            # also out of range, where the value is arbitrary
            path.at_facts.add((p.base, k))
            p.base.facts(path, term)
        for off, fn in p.base.indexed:
            path.add(z3.Implies(z3.And(i >= 0, i < l), zb(fn(off + i, p.base.elem(term)))))
        if k not in path.measured.get(p.base, {}):
            raw = At('at', lambda v: path.to_u(v))

            def ev(parts):
                return z3.If(z3.And(i >= 0, i < l), raw._eval(path, parts, i, term), term)
            path.register(p.base, k, term, ev)
            if p.base in path.rewrites:
                path.add(term == ev(path.rewrites[p.base]))
        return term


class FlatMap(object):
    """A homomorphism from sequences to sequences; unit(path, value) -> Seq."""

    def __init__(self, name, unit, elem):
        self.name = name
        self.unit = unit
        self.elem = elem

    def eval(self, path, seq):
        out = ()
        for p in path.norm(seq):
            if isinstance(p, Unit):
                out += tuple(self.unit(path, p.v))
            else:
                out += (Var(self.atom(path, p)),)
        return path.norm(out)

    def atom(self, path, p):
        key = ('flatmap', self.name, p.base.t.sexpr(), p.key, p.rev)
        v = path.atoms.get(key)
        if v is None:
            t = uf('flatmap<%s%s%s>' % (self.name, '|%s' % p.key if p.key else '', '|reversed' if p.rev else ''), SeqS, SeqS)(p.base.t)

            def unfold(path, p=p):
                if p.base in path.rewrites:
                    return self.eval(path, (p,))
                return None
            v = SeqVar('%s(%s)' % (self.name, p.base.name), t, self.elem, unfold)
            path.atoms[key] = v
        return v
