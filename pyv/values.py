"""Values of the symbolic interpreter."""
import z3
from .terms import U, SeqS, intern_id, realval, uf, B, I, R


class Unsupported(BaseException):
    """The construct is outside the verified subset (never a verdict about the code)."""


class PyExc(BaseException):
    """An exception raised inside the interpreted program."""
    def __init__(self, value):
        self.value = value


class Missing(object):
    def __repr__(self):
        return '<missing>'


MISSING = Missing()


class Poison(object):
    """A variable that a cut loop may or may not have bound."""
    def __repr__(self):
        return '<poison>'


POISON = Poison()


class SV(object):
    """A symbolic scalar."""
    __slots__ = ('kind', 't')

    def __init__(self, kind, t):
        self.kind = kind
        self.t = t

    def __repr__(self):
        return '%s:%s' % (self.kind, self.t)


SORTS = {'int': I, 'real': R, 'bool': B}


class Opt(object):
    """None if cond else val."""
    __slots__ = ('cond', 'val')

    def __init__(self, cond, val):
        self.cond = cond
        self.val = val

    def __repr__(self):
        return 'Opt(%s, %r)' % (self.cond, self.val)


class AbsRef(object):
    """A symbolic reference of an abstract kind (see kinds.py)."""
    __slots__ = ('kind', 't')

    def __init__(self, kind, t):
        self.kind = kind
        self.t = t

    def __repr__(self):
        return '<%s %s>' % (self.kind.name, self.t)


class SStr(object):
    """A string built from constants, symbolic strings and formatted values."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SStr):
                out.extend(p.parts)
            elif isinstance(p, str):
                if p:
                    out.append(p)
            else:
                out.append(p)
        merged = []
        for p in out:
            if isinstance(p, str) and merged and isinstance(merged[-1], str):
                merged[-1] += p
            else:
                merged.append(p)
        self.parts = tuple(merged)

    def __repr__(self):
        return 'SStr%r' % (self.parts,)


class Mutable(object):
    """Anything with state: `d` maps keys to values, all writes are journaled."""
    __slots__ = ('serial', 'd', '__weakref__')
    world = None  # the current World

    def __init__(self):
        self.d = {}
        self.serial = Mutable.world.register(self)


class PyObj(Mutable):
    __slots__ = ('cls', 'extra')

    def __init__(self, cls):
        Mutable.__init__(self)
        self.cls = cls
        self.extra = None

    def __repr__(self):
        return '<%s object %d>' % (self.cls.name, self.serial)


class PyClass(Mutable):
    __slots__ = ('name', 'bases', 'mro', 'meta', 'host', 'module', 'opaque', 'construct')

    def __init__(self, name, bases, ns, meta=None, host=None, module=None):
        Mutable.__init__(self)
        self.name = name
        self.bases = tuple(bases)
        self.d.update(ns)
        self.meta = meta
        self.host = host
        self.module = module
        self.opaque = any(b.opaque for b in bases)
        self.construct = None
        self.mro = [self] + c3([list(b.mro) for b in bases] + [list(bases)])

    def issub(self, other):
        return other in self.mro

    def lookup(self, name):
        for c in self.mro:
            if name in c.d:
                return c.d[name]
        return MISSING

    def __repr__(self):
        return '<class %s>' % self.name


def c3(seqs):
    out = []
    seqs = [s for s in seqs if s]
    while seqs:
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise Unsupported('inconsistent MRO')
        out.append(h)
        seqs = [[x for x in t if x is not h] for t in seqs]
        seqs = [s for s in seqs if s]
    return out


class PyFunc(Mutable):
    __slots__ = ('node', 'name', 'qualname', 'module', 'defaults', 'kwdefaults', 'env', 'is_gen', 'cls')

    def __init__(self, node, name, qualname, module, defaults, kwdefaults, env, is_gen):
        Mutable.__init__(self)
        self.node = node
        self.name = name
        self.qualname = qualname
        self.module = module
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.env = env
        self.is_gen = is_gen
        self.cls = None

    def __repr__(self):
        return '<function %s>' % self.qualname


class Builtin(object):
    __slots__ = ('name', 'fn', 'attrs')

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.attrs = {}

    def __repr__(self):
        return '<builtin %s>' % self.name


class BoundMethod(object):
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __repr__(self):
        return '<bound %r of %r>' % (self.func, self.self)


class PartialV(object):
    __slots__ = ('func', 'args', 'kwargs')

    def __init__(self, func, args, kwargs):
        self.func = func
        self.args = tuple(args)
        self.kwargs = dict(kwargs)

    def __repr__(self):
        return 'partial(%r, %r, %r)' % (self.func, self.args, self.kwargs)


class PropertyV(object):
    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class StaticM(object):
    def __init__(self, f):
        self.f = f


class ClassM(object):
    def __init__(self, f):
        self.f = f


class SlotDesc(object):
    def __init__(self, name):
        self.name = name


class SuperObj(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class PyModule(Mutable):
    __slots__ = ('name', 'model')

    def __init__(self, name):
        Mutable.__init__(self)
        self.name = name
        self.model = None

    def __repr__(self):
        return '<module %s>' % self.name


class Ext(object):
    """An external (unverified) object, function or class, known by a dotted name."""
    __slots__ = ('name', 'attrs', 'info')

    def __init__(self, name, info=None):
        self.name = name
        self.attrs = {}
        self.info = info

    def __repr__(self):
        return '<ext %s>' % self.name


# --- sequences ---------------------------------------------------------------

class Unit(object):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return '[%r]' % (self.v,)


class SeqVar(object):
    """An abstract finite sequence; elem maps a U term to the element value."""
    __slots__ = ('t', 'elem', 'name', 'unfold', 'facts', 'indexed', 'distinct')

    def __init__(self, name, t, elem, unfold=None, facts=None):
        self.distinct = False     # no element occurs twice
        self.indexed = ()         # (offset, fn(index, value) -> fact) true of every element
        self.name = name
        self.t = t
        self.elem = elem
        self.unfold = unfold      # callable(path) -> Seq or None
        self.facts = facts        # callable(path, elementvalue) on each element taken

    def __repr__(self):
        return self.name


class Var(object):
    """A part of a sequence: an abstract sequence, possibly seen through maps."""
    __slots__ = ('base', 'fns', 'key', 'rev')

    def __init__(self, base, fns=(), key='', rev=False):
        self.base = base
        self.fns = fns
        self.key = key
        self.rev = rev

    def value(self, u):
        v = self.base.elem(u)
        for f in self.fns:
            v = f(v)
        return v

    def __repr__(self):
        return '%s%s%s' % ('rev ' if self.rev else '', self.base.name, self.key and '|' + self.key)


def seq_units(vals):
    return tuple(Unit(v) for v in vals)


class PyList(Mutable):
    """list / deque."""
    __slots__ = ('kind',)

    def __init__(self, seq=(), kind='list'):
        Mutable.__init__(self)
        self.kind = kind
        self.d['seq'] = tuple(seq)

    def __repr__(self):
        return '%s%r' % (self.kind, self.d['seq'])


class SeqVal(object):
    """An immutable sequence with abstract parts (a tuple, or a view)."""
    __slots__ = ('seq', 'kind')

    def __init__(self, seq, kind='tuple'):
        self.seq = tuple(seq)
        self.kind = kind

    def __repr__(self):
        return '%s(%r)' % (self.kind, self.seq)


class IterObj(Mutable):
    __slots__ = ()

    def __init__(self, seq):
        Mutable.__init__(self)
        self.d['seq'] = tuple(seq)


class MapVar(object):
    """The unknown part of a dictionary or set."""

    def __init__(self, name, present, value, keys, on_read=None):
        self.name = name
        self.present = present   # key value -> z3 Bool
        self.value = value       # key value -> engine value
        self.keys = keys         # SeqVar of the keys, in order
        self.on_read = on_read
        self.mapval = None

    def __repr__(self):
        return self.name


class DictC(object):
    """Immutable dictionary content: an unknown base overlaid by entries
    (key, value, key-is-in-base) with pairwise different keys (MISSING = deleted)."""
    __slots__ = ('base', 'items')

    def __init__(self, base=None, items=()):
        self.base = base
        self.items = tuple(x if len(x) == 3 else (x[0], x[1], False) for x in items)

    def __repr__(self):
        return 'DictC(%r, %r)' % (self.base, self.items)


class PyDict(Mutable):
    __slots__ = ()

    def __init__(self, content=None):
        Mutable.__init__(self)
        self.d['c'] = content or DictC()

    def __repr__(self):
        return 'dict%r' % (self.d['c'],)


class PySet(Mutable):
    __slots__ = ('frozen',)

    def __init__(self, content=None, frozen=False):
        Mutable.__init__(self)
        self.d['c'] = content or DictC()
        self.frozen = frozen

    def __repr__(self):
        return 'set%r' % (self.d['c'],)


class PyGen(Mutable):
    __slots__ = ('host', 'frame', 'done', 'started', 'name')

    def __init__(self, host, frame, name):
        Mutable.__init__(self)
        self.host = host
        self.frame = frame
        self.name = name
        self.d['steps'] = 0
        self.done = False
        self.started = False


class GenModel(object):
    """A generator object described by a contract: resume(path, mode, value)."""
    def __init__(self, name, resume):
        self.name = name
        self.resume = resume


class Frame(Mutable):
    __slots__ = ('func', 'module', 'env', 'localnames', 'node', 'exc', 'kind', 'globalnames', 'nonlocalnames', 'extra')

    def __init__(self, func, module, env, localnames, kind='func'):
        Mutable.__init__(self)
        self.func = func
        self.module = module
        self.env = env
        self.localnames = localnames
        self.node = None
        self.exc = []
        self.kind = kind
        self.globalnames = ()
        self.nonlocalnames = ()
        self.extra = None


class StarArgs(object):
    """An abstract argument list in a call."""

    def __init__(self, v):
        self.v = v
