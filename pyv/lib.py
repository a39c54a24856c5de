"""Builtins, containers, strings and external modules of the symbolic interpreter."""
import ast
import builtins as hb
import errno as h_errno
import os as h_os
import re
import select as h_select
import signal as h_signal
import socket as h_socket
import stat as h_stat
import string as h_string
import sys as h_sys
import z3
from .terms import U, uf, I as INT, R as REAL, B as BOOL, intern_id, realval
from .values import *
from .engine import NotPure, NA, Sum, zb, LEN, count as count_measure
from . import engine

builtins = {}
classes = {}
extclasses = {}
modules = {}
object_class = None
type_class = None


class SymRange(object):
    """range(start, stop) with bounds which are not known"""

    def __init__(self, start, stop):
        self.start, self.stop = start, stop


class Count(Mutable):
    """itertools.count"""
    __slots__ = ()

    def __init__(self, n=0, step=1):
        Mutable.__init__(self)
        self.d['n'] = n
        self.d['step'] = step


class EnumV(object):
    def __init__(self, it, start):
        self.it, self.start = it, start


class DictView(object):
    def __init__(self, kind, d):
        self.kind, self.d = kind, d


class NsDict(object):
    """locals() / globals() of a frame or module, or an instance __dict__."""
    def __init__(self, obj):
        self.obj = obj


# --- classes -----------------------------------------------------------------

def mkclass(name, bases=(), ns=None, construct=None, host=True):
    c = PyClass(name, bases, ns or {}, None, host or None)
    c.construct = construct
    classes[name] = c
    return c


def exception_class(I, name):
    if name == 'struct.error':
        name = 'Exception'
    name = name.rpartition('.')[2]
    if name in ('error', 'IOError', 'EnvironmentError', 'herror', 'gaierror'):
        name = 'OSError'
    if name not in classes:
        raise Unsupported('exception class %s' % name)
    return classes[name]


def os_error_codes():
    """errno -> the class Python gives an OSError with it"""
    if not ERRNO:
        for n in range(1, 140):
            e = type(OSError(n, ''))
            if e is not OSError:
                ERRNO[n] = e.__name__
    return ERRNO


ERRNO = {}


def os_error_class(c, n):
    if c is classes['OSError'] and type(n) is int:
        return classes[os_error_codes().get(n, 'OSError')]
    return c


def os_error_refine(I, o, t):
    """The class of an OSError with an unknown errno depends on it: decide whether it is t."""
    OS = classes['OSError']
    n = o.d.get('errno')
    if o.cls is not OS or t is OS or not t.issub(OS) or not isinstance(n, SV) or n.kind != 'int':
        return
    codes = [k for k, name in os_error_codes().items() if classes[name].issub(t)]
    if codes and I.decide(z3.Or([n.t == k for k in codes])):
        names = sorted(set(os_error_codes()[k] for k in codes))
        for name in names[:-1]:
            if I.decide(z3.Or([n.t == k for k in codes if os_error_codes()[k] == name])):
                break
        else:
            name = names[-1]
        o.cls = classes[name]


def construct_exc(I, c, args, kwargs):
    if len(args) >= 2:
        c = os_error_class(c, args[0])
    init = c.lookup('__init__')
    o = PyObj(c)
    o.d['args'] = tuple(args)
    if c.issub(classes['OSError']):
        o.d['errno'] = args[0] if len(args) >= 2 else None
        o.d['strerror'] = args[1] if len(args) >= 2 else None
    if init is not MISSING:
        I.call(I.bind_attr(init, o, c), args, kwargs)
    return o


def as_class(I, b):
    if isinstance(b, PyClass):
        return b
    if isinstance(b, Ext):
        c = extclasses.get(b.name)
        if c is None or (I.path is None and c.serial >= len(I.world.reg)):
            c = PyClass(b.name.rpartition('.')[2], [object_class], {})
            c.opaque = True
            c.d['#ext'] = b.name
            if I.path is None:
                extclasses[b.name] = c
        return c
    raise Unsupported('class from %r' % (b,))


def type_of(I, o):
    C = classes
    if o is None:
        return C['NoneType']
    if isinstance(o, bool):
        return C['bool']
    if isinstance(o, int):
        return C['int']
    if isinstance(o, float):
        return C['float']
    if isinstance(o, (str, SStr)):
        return C['str']
    if isinstance(o, bytes):
        return C['bytes']
    if isinstance(o, SV):
        m = {'int': 'int', 'real': 'float', 'bool': 'bool', 'str': 'str', 'bytes': 'bytes'}
        if o.kind in m:
            return C[m[o.kind]]
        raise Unsupported('type of an opaque value')
    if isinstance(o, tuple) or isinstance(o, SeqVal):
        return C['tuple']
    if isinstance(o, PyList):
        return C[o.kind]
    if isinstance(o, PyDict):
        return C['dict']
    if isinstance(o, PySet):
        return C['frozenset' if o.frozen else 'set']
    if isinstance(o, (PyFunc, Builtin)):
        return C['function']
    if isinstance(o, BoundMethod):
        return C['method']
    if isinstance(o, StaticM):
        return C['staticmethod']
    if isinstance(o, ClassM):
        return C['classmethod']
    if isinstance(o, PropertyV):
        return C['property']
    if isinstance(o, (PyGen, GenModel)):
        return C['generator']
    if isinstance(o, PartialV):
        return C['partial']
    if isinstance(o, PyModule):
        return C['module']
    if isinstance(o, range):
        return C['range']
    if isinstance(o, Ext):
        raise Unsupported('type of external %s' % o.name)
    raise Unsupported('type of %r' % (o,))


# --- numbers -----------------------------------------------------------------

def num_value(t):
    """A z3 arithmetic term as an engine number."""
    if isinstance(t, (int, float)):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SV('real' if t.sort() == REAL else 'int', t)


def is_num(v):
    return isinstance(v, (bool, int, float)) or (isinstance(v, SV) and v.kind in ('int', 'real', 'bool'))


def is_real(v):
    return isinstance(v, float) or (isinstance(v, SV) and v.kind == 'real')


def to_real(I, v):
    t = I.path.num(v)
    return z3.ToReal(t) if t.sort() == INT else t


OPS = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.Div: '__truediv__',
       ast.FloorDiv: '__floordiv__', ast.Mod: '__mod__', ast.Pow: '__pow__', ast.BitOr: '__or__',
       ast.BitAnd: '__and__', ast.BitXor: '__xor__', ast.LShift: '__lshift__', ast.RShift: '__rshift__'}


def host_binop(op, a, b):
    import operator as o
    f = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv,
         ast.Mod: o.mod, ast.Pow: o.pow, ast.BitOr: o.or_, ast.BitAnd: o.and_, ast.BitXor: o.xor,
         ast.LShift: o.lshift, ast.RShift: o.rshift}[type(op)]
    return f(a, b)


def binop(I, op, a, b):
    a, b = I.force(a), I.force(b)
    T = type(op)
    if is_num(a) and is_num(b):
        if not isinstance(a, SV) and not isinstance(b, SV):
            try:
                return host_binop(op, a, b)
            except ZeroDivisionError:
                raise I.exc('ZeroDivisionError', 'division by zero')
        real = is_real(a) or is_real(b)
        if T in (ast.Add, ast.Sub, ast.Mult):
            x, y = (to_real(I, a), to_real(I, b)) if real else (I.path.num(a), I.path.num(b))
            r = x + y if T is ast.Add else x - y if T is ast.Sub else x * y
            return num_value(r)
        if T in (ast.Div, ast.FloorDiv, ast.Mod):
            x, y = to_real(I, a), to_real(I, b)
            if I.decide(y == 0):
                raise I.exc('ZeroDivisionError', 'division by zero')
            if T is ast.Div:
                return SV('real', x / y)
            if not real:
                x, y = I.path.num(a), I.path.num(b)
                if not I.path.must(y > 0):
                    raise Unsupported('integer division by a possibly negative number')
                return num_value(x / y if T is ast.FloorDiv else x % y)
            q = z3.ToReal(z3.ToInt(x / y))
            return SV('real', q if T is ast.FloorDiv else x - q * y)
        if T is ast.Pow and isinstance(b, int) and 0 <= b < 8:
            r = 1
            for _ in range(b):
                r = binop(I, ast.Mult(), r, a)
            return r
        if not real and T in (ast.BitAnd, ast.LShift, ast.RShift):
            if T is ast.BitAnd and isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and not isinstance(b, bool) and b >= 0 and isinstance(a, SV) and a.kind == 'int':
                if T is ast.BitAnd and b & (b + 1) == 0:
                    return num_value(a.t % (b + 1))
                if T is ast.BitAnd:
                    return num_value(z3.Sum([a.t / 2 ** i % 2 * 2 ** i for i in range(b.bit_length()) if b >> i & 1]))
                if T is not ast.BitAnd:
                    return num_value(a.t * 2 ** b if T is ast.LShift else a.t / 2 ** b)
        raise Unsupported('arithmetic operator %s' % T.__name__)
    if T is ast.Mod and isinstance(a, (str, SStr)):
        return percent_format(I, a, b)
    strs = (str, SStr)
    sa = isinstance(a, strs) or isinstance(a, SV) and a.kind == 'str'
    sb = isinstance(b, strs) or isinstance(b, SV) and b.kind == 'str'
    if T is ast.Add and sa and sb:
        return concat_str([a, b])
    if isinstance(a, (str, bytes, tuple)) and isinstance(b, (str, bytes, tuple, int)) and not isinstance(b, SV):
        if T is ast.Add and type(a) is type(b) or T is ast.Mult and isinstance(b, int):
            return host_binop(op, a, b)
    if T is ast.Add and isinstance(a, (tuple, SeqVal)) and isinstance(b, (tuple, SeqVal)):
        return SeqVal(engine.as_seq(a) + engine.as_seq(b))
    if T is ast.Add and isinstance(a, PyList) and isinstance(b, PyList):
        return PyList(a.d['seq'] + b.d['seq'], a.kind)
    if T is ast.Mult and isinstance(a, PyList) and isinstance(b, int):
        return PyList(a.d['seq'] * b, a.kind)
    if (isinstance(a, PySet) or isinstance(a, DictView) and a.kind == 'keys') and isinstance(b, (PySet, DictView)) and T in (ast.BitOr, ast.Sub, ast.BitAnd):
        return set_op(I, {ast.BitOr: 'union', ast.Sub: 'difference', ast.BitAnd: 'intersection'}[T], a, (b,))
    h = I.ext_models.get('binop')
    if h is not None:
        r = h(I, op, a, b)
        if r is not NotImplemented:
            return r
    n = OPS[T]
    if isinstance(a, (PyObj, AbsRef)) and I.has_special(a, n):
        return I.call(I.getattr_type(a, n), (b,), {})
    rn = '__r' + n[2:]
    if isinstance(b, (PyObj, AbsRef)) and I.has_special(b, rn):
        return I.call(I.getattr_type(b, rn), (a,), {})
    if any(isinstance(x, SV) and x.kind == 'any' or isinstance(x, (AbsRef, Ext)) for x in (a, b)):
        raise Unsupported('operator %s on %r and %r' % (T.__name__, a, b))
    raise I.exc('TypeError', 'unsupported operand types')


def lt_term(I, a, b):
    """a < b"""
    a, b = I.force(a), I.force(b)
    if is_num(a) and is_num(b):
        if not isinstance(a, SV) and not isinstance(b, SV):
            return a < b
        if is_real(a) or is_real(b):
            return to_real(I, a) < to_real(I, b)
        return I.path.num(a) < I.path.num(b)
    if isinstance(a, str) and isinstance(b, str) or isinstance(a, bytes) and isinstance(b, bytes):
        return a < b
    sa = isinstance(a, str) or isinstance(a, SV) and a.kind == 'str'
    sb = isinstance(b, str) or isinstance(b, SV) and b.kind == 'str'
    if sa and sb:
        return str_rank(I, a) < str_rank(I, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        r = len(a) < len(b)
        if all(isinstance(x, (int, str, float)) for x in a + b):
            return a < b
        for x, y in reversed(list(zip(a, b))):
            e = zb(term(I, eq_value(I, x, y)))
            r = z3.If(e, zb(r), zb(term(I, lt_term(I, x, y))))
        return z3.simplify(zb(r))
    if isinstance(a, (PyObj, AbsRef)) and I.has_special(a, '__lt__'):
        return term(I, I.truth_term(I.call(I.getattr_type(a, '__lt__'), (b,), {})))
    if isinstance(b, (PyObj, AbsRef)) and I.has_special(b, '__gt__'):
        return term(I, I.truth_term(I.call(I.getattr_type(b, '__gt__'), (a,), {})))
    if any(isinstance(x, SV) and x.kind == 'any' or isinstance(x, (AbsRef, Ext)) for x in (a, b)):
        raise Unsupported('ordering of %r and %r' % (a, b))
    raise I.exc('TypeError', "'<' not supported")


def term(I, v):
    if isinstance(v, SV):
        return v.t
    return v


def str_rank(I, v):
    """A total order of strings with '' first."""
    f = uf('str.rank', U, REAL)
    inv = uf('str.unrank', REAL, U)
    u = I.path.to_u(v)
    I.path.add(z3.And(f(u) >= 0, inv(f(u)) == u, f(I.path.to_u('')) == 0, inv(z3.RealVal(0)) == I.path.to_u('')))
    return f(u)


def eq_value(I, a, b):
    if isinstance(a, Opt) and isinstance(a.val, (PyObj, AbsRef)):
        a = I.force(a)
    if isinstance(b, Opt) and isinstance(b.val, (PyObj, AbsRef)):
        b = I.force(b)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, PyObj) and x.cls.lookup('__eq__') is not MISSING:
            return term(I, I.truth_term(I.call(I.getattr_type(x, '__eq__'), (y,), {})))
        if isinstance(x, AbsRef) and not isinstance(y, AbsRef):
            h = x.kind.getattr(I, x, '__eq__')
            if h is not NotImplemented:
                return term(I, I.truth_term(I.call(h, (y,), {})))
    if I.path is None:
        return a == b if not isinstance(a, Mutable) else a is b
    return I.path.eq(a, b)


def is_term(I, a, b):
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        if y is None or isinstance(y, bool):
            if isinstance(x, Opt):
                return x.cond if y is None else z3.And(z3.Not(x.cond), zb(is_term(I, x.val, y)))
            if isinstance(x, SV):
                if x.kind == 'any':
                    return x.t == I.path.to_u(y)
                if x.kind == 'bool' and isinstance(y, bool):
                    return x.t == z3.BoolVal(y)
                return False
            return False if y is None or not isinstance(x, bool) else x is y
    if isinstance(a, (Opt, AbsRef, SV)) or isinstance(b, (Opt, AbsRef, SV)):
        return I.path.eq(a, b)
    if isinstance(a, Ext) and isinstance(b, Ext):
        return a.name == b.name
    if isinstance(a, BoundMethod) or isinstance(b, BoundMethod):
        return False
    if isinstance(a, (int, str)) and isinstance(b, (int, str)):
        return type(a) is type(b) and a == b
    return False


def neg(t):
    t = term(None, t)
    return (not t) if isinstance(t, bool) else z3.Not(t)


def compare(I, op, a, b):
    T = type(op)
    if T is ast.Is:
        return is_term(I, a, b)
    if T is ast.IsNot:
        return neg(is_term(I, a, b))
    if T is ast.Eq:
        return eq_value(I, a, b)
    if T is ast.NotEq:
        return neg(eq_value(I, a, b))
    if T is ast.Lt:
        return lt_term(I, a, b)
    if T is ast.Gt:
        return lt_term(I, b, a)
    if T in (ast.LtE, ast.GtE):
        x, y = (a, b) if T is ast.LtE else (b, a)
        x, y = I.force(x), I.force(y)
        if is_num(x) and is_num(y):
            return neg(lt_term(I, y, x))
        n = '__le__' if T is ast.LtE else '__ge__'
        if isinstance(a, (PyObj, AbsRef)) and I.has_special(a, n):
            return term(I, I.truth_term(I.call(I.getattr_type(a, n), (b,), {})))
        e = zb(term(I, eq_value(I, x, y)))
        return z3.Or(e, zb(term(I, lt_term(I, x, y))))
    if T is ast.In:
        return contains(I, b, a)
    if T is ast.NotIn:
        return neg(contains(I, b, a))
    raise Unsupported('comparison')


def contains(I, c, x):
    c = I.force(c)
    if isinstance(x, Opt) and isinstance(x.val, (PyObj, AbsRef)):
        x = I.force(x)
    if isinstance(c, (PyDict, PySet)):
        return dict_has(I, c.d['c'], x)
    if isinstance(c, DictView) and c.kind == 'keys':
        return dict_has(I, c.d.d['c'], x)
    if isinstance(c, NsDict):
        return x in c.obj.d
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if isinstance(c, str) and isinstance(x, SV):
        raise Unsupported('symbolic substring test')
    if isinstance(c, (AbsRef, PyObj)) and I.has_special(c, '__contains__'):
        return term(I, I.truth_term(I.call(I.getattr_type(c, '__contains__'), (x,), {})))
    if isinstance(c, Ext):
        m = I.ext_models.get(c.name + '.__contains__')
        if m:
            return term(I, m(I.path, (x,), {}))
        raise Unsupported('membership in %s' % c.name)
    if c is None:
        raise I.exc('TypeError', 'argument of type NoneType is not iterable')
    seq = I.to_seq(c)
    out = []
    for p in (I.path.norm(seq) if I.path else seq):
        if isinstance(p, Unit):
            e = term(I, eq_value(I, p.v, x))
            if e is True:
                return True
            out.append(zb(e))
        else:
            m = member_term(I, p, x)
            out.append(m)
    return z3.simplify(z3.Or(out)) if out else False


def member_term(I, p, x):
    """x occurs in an abstract part: a count measure is positive."""
    m = count_measure(I.path, lambda v: zb(term(I, eq_value(I, v, x))))
    return m.eval(I.path, (p,)) > 0


# --- dictionaries ------------------------------------------------------------

def keq(I, a, b):
    r = eq_value(I, a, b)
    return r if isinstance(r, bool) else I.decide(term(I, r))


def check_hashable(I, k):
    if isinstance(k, (PyList, PyDict)) or isinstance(k, PySet) and not k.frozen:
        raise I.exc('TypeError', 'unhashable')


def dict_has(I, c, k):
    check_hashable(I, k)
    k = I.force(k) if isinstance(k, Opt) and c.items else k
    r = False if c.base is None else c.base.present(k)
    for kk, v, _ in reversed(c.items):
        e = term(I, eq_value(I, kk, k))
        if isinstance(e, bool):
            if e:
                r = v is not MISSING
        else:
            r = z3.If(e, z3.BoolVal(v is not MISSING), zb(r))
    return z3.simplify(r) if not isinstance(r, bool) else r


def dict_num(I, c, k, default=0):
    """The number stored for a key as a term, without decisions; `default` where there is none."""
    vals = []
    for kk, v, _ in c.items:
        vals.append((term(I, eq_value(I, kk, k)), z3.RealVal(default) if v is MISSING else to_real(I, v)))
    r = z3.RealVal(default)
    if c.base is not None:
        v = c.base.value(k)
        r = z3.If(zb(c.base.present(k)), to_real(I, v), r)
    for e, v in reversed(vals):
        r = z3.If(zb(e), v, r)
    return z3.simplify(r)


def dict_find(I, c, k):
    """(index or None, value or MISSING) with decisions."""
    check_hashable(I, k)
    k = I.force(k)
    for i, (kk, v, _) in enumerate(c.items):
        if keq(I, kk, k):
            return i, v
    if c.base is not None:
        b = c.base
        if I.decide(b.present(k)):
            v = b.value(k)
            if b.on_read is not None:
                b.on_read(I.path, k, v)
            return None, v
    return None, MISSING


def dict_get(I, d, k, default=MISSING):
    i, v = dict_find(I, d.d['c'], k)
    if v is MISSING:
        if default is MISSING:
            raise I.exc('KeyError', k)
        return default
    return v


def dict_set(I, d, k, v):
    check_hashable(I, k)
    k = I.force(k)
    c = d.d['c']
    i, old = dict_find(I, c, k)
    items = list(c.items)
    if i is not None:
        if items[i][1] is MISSING and not items[i][2]:
            del items[i]
            items.append((k, v, False))
        elif items[i][1] is MISSING:
            raise Unsupported('deleted key set again')
        else:
            items[i] = (items[i][0], v, items[i][2])
    else:
        items.append((k, v, old is not MISSING))
    I.write(d, 'c', DictC(c.base, tuple(items)))


def dict_del(I, d, k):
    """Remove; returns the old value or MISSING."""
    k = I.force(k)
    c = d.d['c']
    i, old = dict_find(I, c, k)
    if old is MISSING:
        return MISSING
    items = list(c.items)
    if i is not None:
        kk, v, inb = items[i]
        if inb if isinstance(inb, bool) else I.decide(inb):
            items[i] = (kk, MISSING, True)
        else:
            del items[i]
    else:
        items.append((k, MISSING, True))
    I.write(d, 'c', DictC(c.base, tuple(items)))
    return old


def dict_clear(I, d):
    I.write(d, 'c', DictC())


def dict_keys(I, c):
    if c.base is None:
        return tuple(Unit(k) for k, v, _ in c.items if v is not MISSING)
    if c.base.keys is None:
        raise Unsupported('iteration over an abstract dictionary')
    path = I.path
    seq = path.norm((Var(c.base.keys),))
    for k, v, inb in c.items:
        if v is MISSING and inb:
            seq = seq_remove(I, seq, k)
    return tuple(seq) + tuple(Unit(k) for k, v, inb in c.items if v is not MISSING and not inb)


def seq_remove(I, seq, k):
    """The duplicate-free sequence without k, which is known to occur in it."""
    path = I.path
    for i, p in enumerate(seq):
        if isinstance(p, Unit) and path.must(zb(term(I, eq_value(I, p.v, k)))):
            return seq[:i] + seq[i + 1:]
    if not any(isinstance(p, Var) and p.fns for p in seq) and any(isinstance(p, Var) for p in seq):
        parts = sorted(range(len(seq)), key=lambda i: isinstance(seq[i], Var))     # single elements first
        for i in parts:
            p = seq[i]
            here = zb(term(I, eq_value(I, p.v, k))) if isinstance(p, Unit) else member_term(I, p, k)
            if i == parts[-1] or path.decide(here):
                break
        if isinstance(p, Unit):
            return seq[:i] + seq[i + 1:]
        b = p.base
        a1 = SeqVar('', path.fresh('pre', engine.SeqS), b.elem, None, b.facts)
        a2 = SeqVar('', path.fresh('suf', engine.SeqS), b.elem, None, b.facts)
        a1.name, a2.name = str(a1.t), str(a2.t)
        a1.distinct = a2.distinct = b.distinct
        path.bind(b, (Var(a1), Unit(k), Var(a2)))
        s = path.norm((p,))
        return seq[:i] + s[:1] + s[2:] + seq[i + 1:]
    raise Unsupported('removed key of an abstract dictionary')


def dict_values(I, c):
    path = I.path
    keys = dict_keys(I, c)
    if c.base is None:
        return tuple(Unit(v) for k, v, _ in c.items if v is not MISSING)
    out = []
    over = [(k, v) for k, v, inb in c.items if inb and v is not MISSING]
    for p in path.norm(keys):
        if isinstance(p, Unit):
            out.append(Unit(dict_get(I, PyDict(c), p.v)))
        else:
            base = c.base
            if over:
                def fn(k, base=base, over=over):
                    u = path.to_u(base.value(k))
                    for kk, v in over:
                        u = z3.If(zb(term(I, eq_value(I, kk, k))), path.to_u(v), u)
                    return path.from_u(base.kinds[1], u)
                key = 'val:%s:%s' % (base.name, fn(p.base.elem(engine.E_)) and path.to_u(fn(p.base.elem(engine.E_))).sexpr())
            else:
                def fn(k, base=base):
                    pure, I.pure = I.pure, True
                    try:
                        return base.value(k)
                    finally:
                        I.pure = pure
                key = 'val:%s' % base.name
            out.append(Var(p.base, p.fns + (fn,), p.key + key, p.rev))
    return tuple(out)


def dict_truth(I, c):
    if c.base is None:
        return any(v is not MISSING for _, v, _ in c.items)
    if any(v is not MISSING for _, v, _ in c.items):
        return True
    if c.base.keys is None:
        f = getattr(c.base, 'nonempty', None)
        if f is not None and not c.items:
            return f()
        raise Unsupported('emptiness of an abstract dictionary')
    return I.path.length(dict_keys(I, c)) > 0


def dict_len(I, c):
    if c.base is None:
        return sum(1 for _, v, _ in c.items if v is not MISSING)
    if c.base.keys is None:
        f = getattr(c.base, 'size', None)
        if f is None:
            raise Unsupported('size of an abstract dictionary')
        n = f()
        for _, v, inb in c.items:
            if v is MISSING:
                n = n - 1
            elif not inb:
                n = n + 1
        return num_value(n)
    return num_value(I.path.length(dict_keys(I, c)))


def dict_update(I, d, other, kwargs=None):
    if other is not None:
        if I.path is not None and isinstance(other, (PyGen, ZipV)):
            def store(x):
                k, v = I.unpack(x, 2)
                dict_set(I, d, k, v)
            fr = I.stack[-1]
            I.drive(I.for_each(other, fr.node, fr, store, lambda: None))
        else:
            for k, v in host_items(I, other):
                dict_set(I, d, k, v)
    for k, v in (kwargs or {}).items():
        dict_set(I, d, k, v)


def host_items(I, v):
    v = I.force(v)
    if isinstance(v, PyDict):
        c = v.d['c']
        if c.base is not None:
            raise Unsupported('all items of an abstract dictionary')
        return [(k, x) for k, x, _ in c.items if x is not MISSING]
    if isinstance(v, NsDict):
        return [(k, x) for k, x in v.obj.d.items() if isinstance(k, str) and not k.startswith('#')]
    if isinstance(v, dict):
        return list(v.items())
    out = []
    for p in host_iter(I, v):
        a, b = I.unpack(p, 2)
        out.append((a, b))
    return out


def host_iter(I, v):
    """A host list of the elements of a fully known iterable."""
    s = I.to_seq(v)
    if I.path is not None:
        s = I.path.norm(s)
    if any(isinstance(p, Var) for p in s):
        raise Unsupported('an abstract sequence where a known one is needed')
    return [p.v for p in s]


def view_source(I, view):
    c = view.d.d['c']
    if view.kind == 'keys':
        return ('seq', dict_keys(I, c), None, view.d)
    if view.kind == 'values':
        return ('seq', dict_values(I, c), None, view.d)
    ks, vs = dict_keys(I, c), dict_values(I, c)
    out = []
    for k, v in zip(ks, vs):
        if isinstance(k, Unit):
            out.append(Unit((k.v, v.v)))
        else:
            f = v.fns[-1]
            out.append(Var(k.base, k.fns + (lambda x, f=f: (x, f(x)),), 'item' + v.key, k.rev))
    return ('seq', tuple(out), None, view.d)


def instance_dict(I, o):
    return NsDict(o)


# --- lists -------------------------------------------------------------------

def list_extend(I, l, other):
    seq = I.to_seq(other)
    I.write(l, 'seq', tuple(l.d['seq']) + tuple(seq))


def first(I, seq):
    if I.path is not None:
        return I.path.first(seq)
    return (seq[0].v, seq[1:]) if seq else None


def last(I, seq):
    if I.path is not None:
        return I.path.last(seq)
    return (seq[-1].v, seq[:-1]) if seq else None


def nrm(I, seq):
    return I.path.norm(seq) if I.path is not None else tuple(seq)


def seq_index(I, seq, k):
    """(before, value, after) or raise IndexError."""
    k = I.force(k)
    if isinstance(k, bool):
        k = int(k)
    seq = nrm(I, seq)
    if isinstance(k, SV) and k.kind == 'bool':
        k = 1 if I.decide(k.t) else 0
    if isinstance(k, int):
        if k >= 0:
            before = ()
            for _ in range(k + 1):
                r = first(I, seq)
                if r is None:
                    raise I.exc('IndexError', 'index out of range')
                v, seq = r
                before += (Unit(v),)
            return before[:-1], v, seq
        after = ()
        for _ in range(-k):
            r = last(I, seq)
            if r is None:
                raise I.exc('IndexError', 'index out of range')
            v, seq = r
            after = (Unit(v),) + after
        return seq, v, after[1:]
    if isinstance(k, SV) and k.kind == 'int':
        path = I.path
        n = path.length(seq)
        if not path.decide(z3.And(k.t >= 0, k.t < n)):
            if not path.must(k.t >= 0):
                if all(isinstance(p, Unit) for p in seq):
                    for i in range(1, len(seq) + 1):
                        if path.decide(k.t == -i):
                            return seq_index(I, seq, -i)
                    raise I.exc('IndexError', 'index out of range')
                raise Unsupported('possibly negative index')
            raise I.exc('IndexError', 'index out of range')
        if all(isinstance(p, Unit) for p in seq):
            for i in range(len(seq)):
                if i == len(seq) - 1 or path.decide(k.t == i):
                    return seq_index(I, seq, i)
        a, b = path.split_at(seq, k.t)
        v, rest = path.first(b)
        return a, v, rest
    if is_num(k):
        raise I.exc('TypeError', 'indices must be integers')
    raise I.exc('TypeError', 'indices must be integers')


def seq_slice(I, seq, s):
    seq = nrm(I, seq)
    lo, hi, st = I.force(s.start), I.force(s.stop), I.force(s.step)
    if all(isinstance(p, Unit) for p in seq) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
        return seq[slice(lo, hi, st)]
    if st == -1 and lo is None and hi is None:
        return I.path.rev(seq)
    if st not in (None, 1):
        raise Unsupported('slice step')
    out = seq
    if hi is not None:
        if isinstance(hi, int) and hi < 0:
            for _ in range(-hi):
                r = last(I, out)
                if r is None:
                    break
                out = r[1]
        else:
            n = I.path.num(hi)
            L = I.path.length(out)
            if I.decide(n < L):
                out, _ = I.path.split_at(out, n)
    if lo is not None:
        if isinstance(lo, int) and lo >= 0:
            for _ in range(lo):
                r = first(I, out)
                if r is None:
                    break
                out = r[1]
        elif isinstance(lo, int):
            raise Unsupported('negative slice start')
        else:
            n = I.path.num(lo)
            L = I.path.length(out)
            if I.decide(n >= L):
                out = ()
            else:
                _, out = I.path.split_at(out, n)
    return out


def getitem(I, o, k):
    o = I.force(o)
    if isinstance(o, PyDict):
        return dict_get(I, o, k)
    if isinstance(o, (PyList, tuple, SeqVal)):
        seq = o.d['seq'] if isinstance(o, PyList) else engine.as_seq(o)
        if isinstance(k, slice):
            s = seq_slice(I, seq, k)
            if isinstance(o, PyList):
                return PyList(s, o.kind)
            return tuple(p.v for p in s) if all(isinstance(p, Unit) for p in s) else SeqVal(s)
        return seq_index(I, seq, k)[1]
    if isinstance(o, NsDict):
        if k in o.obj.d:
            return o.obj.d[k]
        raise I.exc('KeyError', k)
    if isinstance(o, (str, bytes)):
        k = I.force(k)
        if isinstance(k, slice) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
            return o[k]
        if isinstance(k, int):
            try:
                return o[k]
            except IndexError:
                raise I.exc('IndexError', 'string index out of range')
        raise Unsupported('string index')
    if isinstance(o, (AbsRef, PyObj)):
        return I.call(I.getattr_type(o, '__getitem__'), (k,), {})
    if isinstance(o, Ext):
        return call_ext(I, Ext(o.name + '.__getitem__'), (k,), {})
    h = getattr(o, 'pyv_getitem', None)
    if h is not None:
        return h(I, k)
    if o is None or is_num(o):
        raise I.exc('TypeError', 'object is not subscriptable')
    if isinstance(o, SV) and o.kind in ('bytes', 'str'):
        m = I.ext_models.get(o.kind + '.__getitem__')
        if m is not None:
            return m(I.path, (o, k), {})
    raise Unsupported('subscript of %r' % (o,))


def setitem(I, o, k, v):
    o = I.force(o)
    if isinstance(o, PyDict):
        return dict_set(I, o, k, v)
    if isinstance(o, PyList):
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step is None:
                I.write(o, 'seq', tuple(I.to_seq(v)))
                return
            raise Unsupported('slice assignment')
        a, _, b = seq_index(I, o.d['seq'], k)
        I.write(o, 'seq', tuple(a) + (Unit(v),) + tuple(b))
        return
    if isinstance(o, NsDict):
        if isinstance(o.obj, Frame) or isinstance(o.obj, Mutable):
            I.write(o.obj, k, v)
            return
    if isinstance(o, (AbsRef, PyObj)):
        I.call(I.getattr_type(o, '__setitem__'), (k, v), {})
        return
    if isinstance(o, Ext):
        call_ext(I, Ext(o.name + '.__setitem__'), (k, v), {})
        return
    raise Unsupported('item assignment on %r' % (o,))


def delitem(I, o, k):
    o = I.force(o)
    if isinstance(o, PyDict):
        if dict_del(I, o, k) is MISSING:
            raise I.exc('KeyError', k)
        return
    if isinstance(o, PyList):
        if isinstance(k, slice):
            if k.start is None and k.stop is None:
                I.write(o, 'seq', ())
                return
            raise Unsupported('slice deletion')
        a, _, b = seq_index(I, o.d['seq'], k)
        I.write(o, 'seq', tuple(a) + tuple(b))
        return
    if isinstance(o, (AbsRef, PyObj)):
        I.call(I.getattr_type(o, '__delitem__'), (k,), {})
        return
    raise Unsupported('del item of %r' % (o,))


# --- strings -----------------------------------------------------------------

def concat_str(parts):
    s = SStr([p if isinstance(p, (str, SStr, tuple)) or isinstance(p, SV) else p for p in parts])
    if not s.parts:
        return ''
    if len(s.parts) == 1 and isinstance(s.parts[0], (str, SV)):
        return s.parts[0]
    return s


def concrete_int(I, v, limit=20):
    """a symbolic whole number which is one of a few"""
    v = I.force(v)
    if isinstance(v, SV) and v.kind in ('int', 'bool') and I.path is not None:
        for n in range(limit + 1):
            if I.decide(I.path.num(v) == n):
                return n
        raise Unsupported('symbolic number where one of a few is needed')
    return v


def format_value(I, x, spec):
    x = I.force(x)
    if isinstance(spec, SStr):
        parts = []
        for p in spec.parts:
            if isinstance(p, tuple) and p[0] == 'fmt' and p[1] == 'd':
                p = str(concrete_int(I, p[2]))
            if not isinstance(p, str):
                raise Unsupported('symbolic format specification')
            parts.append(p)
        spec = ''.join(parts)
    if isinstance(x, (str, int, float)) and not isinstance(x, bool):
        try:
            return format(x, spec)
        except ValueError as e:
            raise I.exc('ValueError', str(e))
    if isinstance(x, bool) or x is None:
        return format(x, spec)
    if isinstance(x, SStr) and spec in ('', 's'):
        return x
    if isinstance(x, SV) and x.kind == 'str' and spec in ('', 's'):
        return x
    if isinstance(x, SV) and x.kind == 'int' and spec in ('', 'd'):
        spec = 'd'
    if isinstance(x, (PyObj,)) and spec == '' and x.cls.lookup('__str__') is not MISSING:
        return I.call(I.getattr_type(x, '__str__'), (), {})
    return SStr([('fmt', spec, x)])


def py_str(I, x):
    x = I.force(x)
    if isinstance(x, (str, SStr)) or isinstance(x, SV) and x.kind == 'str':
        return x
    if isinstance(x, (int, float, bool)) or x is None:
        return str(x)
    return format_value(I, x, '')


def py_repr(I, x):
    x = I.force(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return repr(x)
    if isinstance(x, PyObj) and x.cls.lookup('__repr__') is not MISSING:
        return I.call(I.getattr_type(x, '__repr__'), (), {})
    return SStr([('fmt', '!r', x)])


def str_format(I, fmt, args, kwargs):
    if not isinstance(fmt, str):
        raise Unsupported('symbolic format string')
    parts = []
    auto = 0
    for lit, field, spec, conv in h_string.Formatter().parse(fmt):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        m = re.match(r'([^.\[]*)(.*)$', field)
        name, rest = m.group(1), m.group(2)
        if name == '':
            x = getitem_checked(I, args, auto)
            auto += 1
        elif name.isdigit():
            x = getitem_checked(I, args, int(name))
        else:
            if name not in kwargs:
                raise I.exc('KeyError', name)
            x = kwargs[name]
        for a, b in re.findall(r'\.(\w+)|\[([^\]]*)\]', rest):
            if a:
                x = I.getattr(x, a)
            else:
                x = I.getitem(x, int(b) if b.lstrip('-').isdigit() else b)
        if spec and '{' in spec:
            spec = str_format(I, spec, args[auto:], kwargs)
        if conv == 'r':
            x = py_repr(I, x)
        elif conv == 's':
            x = py_str(I, x)
        parts.append(format_value(I, x, spec or ''))
    return concat_str(parts)


def getitem_checked(I, args, i):
    if i >= len(args):
        raise I.exc('IndexError', 'tuple index out of range')
    return args[i]


def percent_format(I, fmt, arg):
    if not isinstance(fmt, str):
        raise Unsupported('symbolic format string')
    args = list(arg) if isinstance(arg, tuple) else [arg]
    parts = []
    pos = 0
    for m in re.finditer(r'%(?:(%)|([-#0 +]*)(\d*)(?:\.(\d+|\*))?([sdrfix]))', fmt):
        parts.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(1):
            parts.append('%')
            continue
        if not args:
            raise I.exc('TypeError', 'not enough arguments for format string')
        flags, width, prec, c = m.group(2), m.group(3), m.group(4), m.group(5)
        if prec == '*':
            prec = str(concrete_int(I, args.pop(0)))
            if not args:
                raise I.exc('TypeError', 'not enough arguments for format string')
        x = I.force(args.pop(0))
        if c == 's' and not (width or prec):
            parts.append(py_str(I, x))
        elif c == 'r':
            parts.append(py_repr(I, x))
        elif not isinstance(x, SV) and not isinstance(x, (Mutable, AbsRef, Ext)):
            try:
                parts.append(('%' + flags + width + ('.' + prec if prec else '') + c) % x)
            except (TypeError, ValueError) as e:
                raise I.exc(type(e).__name__, str(e))
        elif c in 'di' and isinstance(x, SV) and x.kind in ('int', 'real') and not width and not flags and not prec:
            parts.append(SStr([('fmt', 'd', x if x.kind == 'int' else b_int(I, [x], {}))]))
        else:
            spec = flags + width + ('.' + prec if prec else '') + c
            parts.append(SStr([('fmt', spec, x)]))
    parts.append(fmt[pos:])
    if args and not (len(args) == 1 and isinstance(arg, PyDict)):
        raise I.exc('TypeError', 'not all arguments converted')
    return concat_str(parts)


STR_METHODS = ('startswith', 'endswith', 'split', 'rsplit', 'title', 'upper', 'lower', 'isdigit', 'strip',
               'rstrip', 'lstrip', 'rpartition', 'partition', 'replace', 'capitalize', 'encode', 'count',
               'find', 'rfind', 'index', 'zfill', 'ljust', 'rjust', 'center', 'swapcase', 'islower', 'isupper',
               'isalpha', 'isalnum', 'splitlines', 'isspace', 'isdecimal', 'isnumeric', 'isidentifier', 'casefold')


def str_attr(I, o, name):
    if name == 'format':
        return Builtin('str.format', lambda I, a, k: str_format(I, o, a, k))
    if name == 'join':
        def join(I, a, k):
            seq = nrm(I, I.to_seq(a[0]))
            if isinstance(o, bytes) or any(isinstance(p, Unit) and isinstance(p.v, bytes) for p in seq):
                m = I.ext_models.get('bytes.join')
                if m is not None:
                    return m(I.path, (o, SeqVal(seq)), k)
                if all(isinstance(p, Unit) and isinstance(p.v, bytes) for p in seq):
                    return o.join(p.v for p in seq)
                raise Unsupported('bytes.join')
            parts = []
            for i, p in enumerate(seq):
                if isinstance(p, Var):
                    m = I.ext_models.get('str.join')
                    if m is not None:
                        return m(I.path, (o, SeqVal(seq)), k)
                    raise Unsupported('join of an abstract sequence')
                if i:
                    parts.append(o)
                v = I.force(p.v)
                if not (isinstance(v, (str, SStr)) or isinstance(v, SV) and v.kind == 'str'):
                    raise I.exc('TypeError', 'expected str instance')
                parts.append(v)
            return concat_str(parts)
        return Builtin('str.join', join)
    if name in STR_METHODS:
        def method(I, a, k):
            a = tuple(I.force(x) for x in a)
            if isinstance(o, (str, bytes)) and all(not isinstance(x, (SV, SStr, AbsRef)) for x in a):
                try:
                    r = getattr(o, name)(*a, **k)
                except (ValueError, TypeError) as e:
                    raise I.exc(type(e).__name__, str(e))
                return PyList(seq_units(r)) if isinstance(r, list) else r
            m = I.ext_models.get('str.' + name)
            if m is not None:
                return m(I.path, (o,) + a, k)
            raise Unsupported('str.%s of %r' % (name, o))
        return Builtin('str.' + name, method)
    raise I.exc('AttributeError', 'str has no attribute %s' % name)


# --- attributes of host values -----------------------------------------------

def host_getattr(I, o, name):
    if isinstance(o, (str, SStr, bytes)) or isinstance(o, SV) and o.kind in ('str', 'bytes'):
        return str_attr(I, o, name)
    if isinstance(o, PyList):
        m = LIST.get(name)
        if m is not None and not (o.kind == 'list' and name in ('appendleft', 'popleft', 'extendleft')):
            return Builtin('list.' + name, lambda I, a, k: m(I, o, *a, **k))
    if isinstance(o, PyDict):
        m = DICT.get(name)
        if m is not None:
            return Builtin('dict.' + name, lambda I, a, k: m(I, o, a, k))
    if isinstance(o, PySet):
        m = SET.get(name)
        if m is not None:
            return Builtin('set.' + name, lambda I, a, k: m(I, o, *a))
    if isinstance(o, NsDict):
        if name == 'items':
            return Builtin(name, lambda I, a, k: SeqVal(seq_units(host_items(I, o)), 'list'))
        if name == 'copy':
            return Builtin(name, lambda I, a, k: PyDict(DictC(None, tuple(host_items(I, o)))))
        if name == 'get':
            return Builtin(name, lambda I, a, k: o.obj.d.get(a[0], a[1] if len(a) > 1 else None))
        if name == 'update':
            def upd(I, a, k):
                for kk, v in (host_items(I, a[0]) if a else []) + list(k.items()):
                    I.write(o.obj, kk, v)
            return Builtin(name, upd)
        if name == 'pop':
            def pop(I, a, k):
                if a[0] in o.obj.d:
                    v = o.obj.d[a[0]]
                    I.write(o.obj, a[0], MISSING)
                    return v
                if len(a) > 1:
                    return a[1]
                raise I.exc('KeyError', a[0])
            return Builtin(name, pop)
    if isinstance(o, (tuple, SeqVal)):
        if name in ('index', 'count'):
            return Builtin(name, lambda I, a, k: LIST[name](I, PyList(engine.as_seq(o)), *a))
    if isinstance(o, Builtin):
        if name in o.attrs:
            return o.attrs[name]
        if name in ('__name__', '__qualname__'):
            return o.name.rpartition('.')[2]
        if name == '__doc__':
            return None
    if isinstance(o, PropertyV):
        if name == 'setter':
            return Builtin(name, lambda I, a, k: PropertyV(o.fget, a[0], o.fdel))
        if name == 'getter':
            return Builtin(name, lambda I, a, k: PropertyV(a[0], o.fset, o.fdel))
        if name == 'deleter':
            return Builtin(name, lambda I, a, k: PropertyV(o.fget, o.fset, a[0]))
        if name in ('fget', 'fset', 'fdel'):
            return getattr(o, name)
    if isinstance(o, PartialV):
        if name == 'func':
            return o.func
        if name == 'args':
            return o.args
        if name == 'keywords':
            return PyDict(DictC(None, tuple(o.kwargs.items())))
    if isinstance(o, PyGen):
        if name in ('__next__', 'next'):
            return Builtin(name, lambda I, a, k: I.next_of(o))
        if name == '__iter__':
            return Builtin(name, lambda I, a, k: o)
        if name == 'send':
            def send(I, a, k):
                if a[0] is not None:
                    raise Unsupported('send of a value')
                return I.next_of(o)
            return Builtin(name, send)
        if name == 'throw':
            def throw(I, a, k):
                e = a[1] if len(a) > 1 and a[1] is not None else a[0]
                if isinstance(e, PyClass):
                    e = I.call(e, (), {})
                return I.resume(o, e)
            return Builtin(name, throw)
        if name == 'close':
            def close(I, a, k):
                if o.done:
                    return None
                try:
                    I.resume(o, I.exc('GeneratorExit').value)
                except PyExc as e:
                    if I.exc_is(e, 'GeneratorExit') or I.exc_is(e, 'StopIteration'):
                        return None
                    raise
                raise I.exc('RuntimeError', 'generator ignored GeneratorExit')
            return Builtin(name, close)
    if isinstance(o, GenModel):
        if name in ('__next__', 'next'):
            return Builtin(name, lambda I, a, k: o.resume(I.path, 'next', None))
        if name == 'send':
            return Builtin(name, lambda I, a, k: o.resume(I.path, 'next', a[0]))
        if name == 'close':
            return Builtin(name, lambda I, a, k: o.resume(I.path, 'close', None))
        if name == 'throw':
            return Builtin(name, lambda I, a, k: o.resume(I.path, 'throw', a[0]))
    if isinstance(o, (IterObj, Count)):
        if name in ('__next__', 'next'):
            return Builtin(name, lambda I, a, k: I.next_of(o))
        if name == '__iter__':
            return Builtin(name, lambda I, a, k: o)
    if isinstance(o, Ext):
        return ext_getattr(I, o, name)
    if isinstance(o, (tuple, SeqVal, PyList, PyDict, PySet, DictView)) and name in ('__iter__', '__len__', '__contains__'):
        if name == '__iter__':
            return Builtin(name, lambda I, a, k: I.iter_of(o))
        if name == '__len__':
            return Builtin(name, lambda I, a, k: b_len(I, (o,), {}))
        return Builtin(name, lambda I, a, k: SV('bool', zb(contains(I, o, a[0]))))
    if name == '__class__':
        f = getattr(o.kind, 'typeval', None) if isinstance(o, AbsRef) else None
        return f(I, o) if f else I.type_of(o)
    h = getattr(o, 'pyv_attr', None)
    if h is not None:
        r = h(I, name)
        if r is not NotImplemented:
            return r
    if isinstance(o, SV) and o.kind == 'any':
        raise Unsupported('attribute %s of an opaque value' % name)
    raise I.exc('AttributeError', '%r has no attribute %s' % (type(o).__name__, name))


def _l_append(I, o, x):
    I.write(o, 'seq', tuple(o.d['seq']) + (Unit(x),))


def _l_appendleft(I, o, x):
    I.write(o, 'seq', (Unit(x),) + tuple(o.d['seq']))


def _l_extendleft(I, o, x):
    s = nrm(I, I.to_seq(x))
    s = I.path.rev(s) if I.path is not None else tuple(reversed(s))
    I.write(o, 'seq', tuple(s) + tuple(o.d['seq']))


def _l_pop(I, o, i=-1):
    seq = nrm(I, o.d['seq'])
    a, v, b = seq_index(I, seq, i)
    I.write(o, 'seq', tuple(a) + tuple(b))
    return v


def _l_insert(I, o, i, x):
    seq = nrm(I, o.d['seq'])
    if i == 0:
        a, b = (), seq
    elif isinstance(i, int) and i < 0:
        a, b = seq, ()
        for _ in range(-i):
            r = last(I, a)
            if r is None:
                break
            a, b = r[1], (Unit(r[0]),) + b
    else:
        b, a = seq, ()
        if isinstance(i, int) and all(isinstance(p, Unit) for p in seq):
            a, b = seq[:i], seq[i:]
        else:
            n = I.path.num(i)
            if I.decide(n >= I.path.length(seq)):
                a, b = seq, ()
            else:
                a, b = I.path.split_at(seq, n)
    I.write(o, 'seq', tuple(a) + (Unit(x),) + tuple(b))


def _l_remove(I, o, x):
    seq = nrm(I, o.d['seq'])
    for i, p in enumerate(seq):
        if isinstance(p, Var):
            raise Unsupported('remove from an abstract list')
        if keq(I, p.v, x):
            I.write(o, 'seq', seq[:i] + seq[i + 1:])
            return
    raise I.exc('ValueError', 'list.remove(x): x not in list')


def _l_index(I, o, x):
    for i, p in enumerate(nrm(I, o.d['seq'])):
        if isinstance(p, Var):
            raise Unsupported('index in an abstract list')
        if keq(I, p.v, x):
            return i
    raise I.exc('ValueError', 'not in list')


def _l_count(I, o, x):
    n = 0
    for p in nrm(I, o.d['seq']):
        n += 1 if keq(I, p.v, x) else 0
    return n


def _l_reverse(I, o):
    s = nrm(I, o.d['seq'])
    I.write(o, 'seq', I.path.rev(s) if I.path is not None else tuple(reversed(s)))


def _l_sort(I, o, key=None, reverse=False):
    I.write(o, 'seq', b_sorted(I, (o,), {'key': key, 'reverse': reverse}).d['seq'])


LIST = {'append': _l_append, 'appendleft': _l_appendleft, 'extend': list_extend, 'extendleft': _l_extendleft,
        'pop': _l_pop, 'popleft': lambda I, o: _l_pop(I, o, 0), 'insert': _l_insert, 'remove': _l_remove,
        'index': _l_index, 'count': _l_count, 'reverse': _l_reverse, 'sort': _l_sort,
        'copy': lambda I, o: PyList(o.d['seq'], o.kind), 'clear': lambda I, o: I.write(o, 'seq', ())}


def _d_get(I, o, a, k):
    return dict_get(I, o, a[0], a[1] if len(a) > 1 else None)


def _d_pop(I, o, a, k):
    v = dict_del(I, o, a[0])
    if v is MISSING:
        if len(a) > 1:
            return a[1]
        raise I.exc('KeyError', a[0])
    return v


def _d_setdefault(I, o, a, k):
    i, v = dict_find(I, o.d['c'], a[0])
    if v is not MISSING:
        return v
    v = a[1] if len(a) > 1 else None
    dict_set(I, o, a[0], v)
    return v


DICT = {'get': _d_get, 'pop': _d_pop, 'setdefault': _d_setdefault,
        'update': lambda I, o, a, k: dict_update(I, o, a[0] if a else None, k),
        'items': lambda I, o, a, k: DictView('items', o), 'keys': lambda I, o, a, k: DictView('keys', o),
        'values': lambda I, o, a, k: DictView('values', o), 'clear': lambda I, o, a, k: dict_clear(I, o),
        'copy': lambda I, o, a, k: PyDict(o.d['c']),
        '__contains__': lambda I, o, a, k: SV('bool', zb(dict_has(I, o.d['c'], a[0]))),
        '__getitem__': lambda I, o, a, k: dict_get(I, o, a[0]),
        '__setitem__': lambda I, o, a, k: dict_set(I, o, a[0], a[1])}


def _s_remove(I, o, x):
    if dict_del(I, o, x) is MISSING:
        raise I.exc('KeyError', x)


def set_of(I, has, kind, name='set'):
    """The finite set of the keys of which has is true."""
    path = I.path
    m = MapVar(str(path.fresh(name, B)), has, lambda k: True, None)
    m.keys = path.new_seq(kind, name + '.keys', facts=lambda p, u: p.add(zb(has(p.from_u(kind, u)))))
    m.keys.distinct = True
    m.keys.indexed = ((z3.IntVal(0), lambda i, v: zb(has(v))),)
    m.kinds = (kind, 'bool')
    if getattr(path, 'on_map', None):
        path.on_map(m)
    return DictC(m)


def dict_part(v):
    """The content of a set, a dictionary or the keys of one."""
    if isinstance(v, (PySet, PyDict)):
        return v.d['c']
    if isinstance(v, DictView) and v.kind == 'keys':
        return v.d.d['c']
    return None


def set_op(I, name, a, others):
    out = PySet(dict_part(a))
    for b in others:
        c, d = out.d['c'], dict_part(b)
        op = name.partition('_')[0]
        if I.path is not None and d is not None and op in ('difference', 'intersection', 'union', 'update') and (
                d.base is not None or op == 'intersection' and c.base is not None):
            if c.base is None and not c.items:
                if op in ('union', 'update'):
                    out = PySet(d)
                continue
            ks = [x for x in (c, d) if x.base is not None or x.items]
            kinds = [I.map_kind(x)[1] for x in (ks if op in ('union', 'update') else [c])]
            kind = kinds[0] if len(kinds) < 2 else I.path.join(kinds[0], kinds[1])
            one, two = (lambda k, c=c: zb(dict_has(I, c, k))), (lambda k, d=d: zb(dict_has(I, d, k)))
            out = PySet(set_of(I, {'difference': lambda k, one=one, two=two: z3.And(one(k), z3.Not(two(k))),
                                   'intersection': lambda k, one=one, two=two: z3.And(one(k), two(k))}.get(
                op, lambda k, one=one, two=two: z3.Or(one(k), two(k))), kind, op))
            continue
        if op in ('union', 'update'):
            for x in host_iter(I, b):
                dict_set(I, out, x, True)
        elif op == 'difference':
            for x in host_iter(I, b):
                dict_del(I, out, x)
        elif op == 'intersection':
            for x in host_iter(I, out):
                if not I.decide(contains(I, b, x)):
                    dict_del(I, out, x)
        else:
            raise Unsupported('set.%s' % name)
    return out


def _s_pop(I, o):
    c = o.d['c']
    if c.base is None:
        ks = [k for k, v, _ in c.items if v is not MISSING]
        if not ks:
            raise I.exc('KeyError', 'pop from an empty set')
        k = ks[I.path.choose(len(ks))] if I.path is not None else ks[0]
        dict_del(I, o, k)
        return k
    raise Unsupported('set.pop')


SET = {'add': lambda I, o, x: dict_set(I, o, x, True), 'remove': _s_remove,
       'discard': lambda I, o, x: dict_del(I, o, x) and None, 'clear': lambda I, o: dict_clear(I, o),
       'union': lambda I, o, *a: set_op(I, 'union', o, a), 'difference': lambda I, o, *a: set_op(I, 'difference', o, a),
       'intersection': lambda I, o, *a: set_op(I, 'intersection', o, a),
       'update': lambda I, o, *a: I.write(o, 'c', set_op(I, 'union', o, a).d['c']),
       'difference_update': lambda I, o, *a: I.write(o, 'c', set_op(I, 'difference', o, a).d['c']),
       'copy': lambda I, o: PySet(o.d['c']), 'pop': _s_pop,
       '__contains__': lambda I, o, x: SV('bool', zb(dict_has(I, o.d['c'], x)))}


# --- external things ---------------------------------------------------------

def allowed(I, name):
    if I.path is None or I.loading:
        return True
    for p in I.allow_opaque:
        if name == p or p.endswith('*') and name.startswith(p[:-1]):
            return True
    return False


def ext_getattr(I, o, name):
    full = o.name + '.' + name
    if full in I.ext_attrs:
        return I.ext_attrs[full]
    h = I.ext_models.get(full + '@')      # an attribute read with a model
    if h is not None:
        return h(I.path)
    if name in o.attrs:
        v = o.attrs[name]
        if isinstance(v, PyExc):
            raise v
        return v
    if name == '__dict__' and o.attrs:
        return PyDict(DictC(None, tuple((k, v) for k, v in o.attrs.items() if not isinstance(v, Ext) or True)))
    if isinstance(o.info, dict) and o.info.get('closed'):
        raise I.exc('AttributeError', name)
    v = Ext(full)
    if I.path is None:
        o.attrs[name] = v
    return v


def ext_setattr(I, o, name, v):
    I.ext_used.setdefault(o.name + '.' + name + '=', 0)
    if I.path is None:
        o.attrs[name] = v
        return
    h = I.ext_models.get(o.name + '.' + name + '=')
    if h is not None:
        return h(I.path, v)
    if not allowed(I, o.name):
        raise Unsupported('store to %s.%s' % (o.name, name))
    I.ext_attrs[o.name + '.' + name] = v


def call_ext(I, f, args, kwargs):
    n = f.name
    m = I.ext_models.get(n)
    if m is not None:
        if I.pure and not getattr(m, 'pure', False):
            raise NotPure()
        I.ext_used[n] = I.ext_used.get(n, 0) + 1
        return m(I.path, args, kwargs)
    m = DEFAULT_EXT.get(n)
    if m is not None:
        return m(I, args, kwargs)
    if I.path is not None:
        c = extclasses.get(n)
    if allowed(I, n):
        if I.path is not None:
            I.ext_used[n] = I.ext_used.get(n, 0) + 1
        return Ext(n + '()', {'args': args, 'kwargs': kwargs})
    raise Unsupported('call of external %s' % n)


def ext_bases(c):
    return [k for k in c.mro if '#ext' in k.d]


def opaque_attr(I, o, name):
    for k in ext_bases(o.cls):
        full = k.d['#ext'] + '.' + name
        m = I.ext_models.get(full)
        if m is not None:
            def call(I, a, kw, m=m, full=full):
                I.ext_used[full] = I.ext_used.get(full, 0) + 1
                return m(I.path, (o,) + a, kw)
            return Builtin(full, call)
        m = I.ext_models.get(full + '@')
        if m is not None:
            return m(I.path, o)
    for k in ext_bases(o.cls):
        h = I.ext_models.get(k.d['#ext'] + '.*')
        if h is not None:
            return h(I.path, o, name)
    for k in ext_bases(o.cls):
        full = k.d['#ext'] + '.' + name
        if full in DEFAULT_EXT:
            m = DEFAULT_EXT[full]
            return Builtin(full, lambda I, a, kw: m(I, (o,) + a, kw))
    if name.startswith('__'):
        return NotImplemented
    if allowed(I, ext_bases(o.cls)[0].d['#ext'] + '.' + name):
        return Ext(ext_bases(o.cls)[0].d['#ext'] + '.' + name)
    raise Unsupported('attribute %s of an external base class of %s' % (name, o.cls.name))


def class_attr(I, c, name):
    for k in ext_bases(c):
        full = k.d['#ext'] + '.' + name
        m = I.ext_models.get(full)
        if m is not None:
            return Builtin(full, lambda I, a, kw: m(I.path, a, kw))
        if full in DEFAULT_EXT:
            m = DEFAULT_EXT[full]
            return Builtin(full, lambda I, a, kw: m(I, a, kw))
        if name == '__init__':
            return Builtin(full, lambda I, a, kw: opaque_init(I, full, a, kw))
    if name == '__init__' and c.host is not None:
        return Builtin('object.__init__', lambda I, a, kw: None)
    if ext_bases(c) and not name.startswith('__') and allowed(I, ext_bases(c)[0].d['#ext'] + '.' + name):
        return Ext(ext_bases(c)[0].d['#ext'] + '.' + name)
    return NotImplemented


def opaque_init(I, full, a, kw):
    I.ext_used[full] = I.ext_used.get(full, 0) + 1
    return None


def super_builtin(I, so, c, name):
    o = so.obj
    i = c.mro.index(so.cls)
    for k in c.mro[i + 1:]:
        if '#ext' in k.d:
            full = k.d['#ext'] + '.' + name
            m = I.ext_models.get(full)
            if m is not None:
                def call(I, a, kw, m=m, full=full):
                    I.ext_used[full] = I.ext_used.get(full, 0) + 1
                    return m(I.path, (o,) + a, kw)
                return Builtin(full, call)
            if full in DEFAULT_EXT:
                m = DEFAULT_EXT[full]
                return Builtin(full, lambda I, a, kw: m(I, (o,) + a, kw))
            if name == '__init__':
                return Builtin(full, lambda I, a, kw: opaque_init(I, full, a, kw))
            if name in ('__new__',):
                break
            if allowed(I, full):
                return Ext(full)
            raise Unsupported('method %s of an external base class' % full)
    if isinstance(o, PyClass) and o.issub(type_class):
        if name == '__new__':
            def new(I, a, kw):
                meta, nm, bases, ns = a
                return I.build_class(meta, nm, list(bases), dict(host_items(I, ns)),
                                     I.stack[-1].module if I.stack else None)
            return Builtin('type.__new__', new)
    if isinstance(o, PyClass) and name == '__call__':
        return Builtin('type.__call__', lambda I, a, kw: I.type_call(o, a, kw))
    if name == '__new__':
        return Builtin('object.__new__', lambda I, a, kw: I.alloc(a[0]))
    if name == '__init__':
        def init(I, a, kw):
            if a or kw:
                raise I.exc('TypeError', 'object.__init__() takes exactly one argument')
        return Builtin('object.__init__', init)
    if name == '__hash__':
        return Builtin('object.__hash__', lambda I, a, kw: b_id(I, (o,), {}))
    return NotImplemented


def host_consts(mod, ext, pred=lambda n: n.isupper() or n[:1].isupper()):
    for n in vars(mod):
        v = getattr(mod, n)
        if isinstance(v, (int, str)) and not n.startswith('_'):
            ext.attrs[n] = int(v) if isinstance(v, int) and not isinstance(v, bool) else v


def module(I, name):
    if name == 'cPickle':
        raise I.exc('ImportError', name)
    m = modules.get(name)
    if m is not None:
        return m
    if '.' in name:
        parent, _, leaf = name.rpartition('.')
        return ext_getattr(I, module(I, parent), leaf)
    m = modules[name] = Ext(name)
    return m


# --- builtin functions -------------------------------------------------------

def b_len(I, a, k):
    o = I.force(a[0])
    if isinstance(o, (str, bytes, range, tuple)):
        return len(o)
    if isinstance(o, PyList):
        return num_value(I.path.length(o.d['seq'])) if I.path is not None else len(o.d['seq'])
    if isinstance(o, SeqVal):
        return num_value(I.path.length(o.seq))
    if isinstance(o, (PyDict, PySet)):
        return dict_len(I, o.d['c'])
    if isinstance(o, DictView):
        return dict_len(I, o.d.d['c'])
    if isinstance(o, (PyObj, AbsRef)):
        return I.call(I.getattr_type(o, '__len__'), (), {})
    if isinstance(o, SV) and o.kind in ('bytes', 'str'):
        m = I.ext_models.get('len')
        if m is not None:
            return m(I.path, (o,), k)
    h = getattr(o, 'pyv_len', None)
    if h is not None:
        return h(I)
    if isinstance(o, (SV, Ext, SStr)):
        raise Unsupported('len of %r' % (o,))
    raise I.exc('TypeError', 'object has no len()')


def isinstance_v(I, o, c):
    if isinstance(c, tuple):
        return any(isinstance_v(I, o, x) for x in c)
    o = I.force(o)
    if isinstance(o, AbsRef):
        h = getattr(o.kind, 'isinstance', None)
        if h is not None:
            r = h(I, o, c)
            if r is not NotImplemented:
                return I.decide(r) if not isinstance(r, bool) else r
    m = I.ext_models.get('isinstance')
    if m is not None:
        r = m(I.path, (o, c), {})
        if r is not NotImplemented:
            return r
    if isinstance(c, Ext):
        if isinstance(o, (PyObj,)):
            return any(kk.d.get('#ext') == c.name for kk in o.cls.mro)
        if isinstance(o, Ext):
            raise Unsupported('isinstance of externals')
        return False
    if not isinstance(c, PyClass):
        raise I.exc('TypeError', 'isinstance() arg 2 must be a type')
    if isinstance(o, Ext):
        raise Unsupported('isinstance of external %s' % o.name)
    if isinstance(o, PyObj):
        os_error_refine(I, o, c)
    return I.type_of(o).issub(c)


def issubclass_v(I, a, b):
    if isinstance(b, tuple):
        return any(issubclass_v(I, a, x) for x in b)
    if isinstance(a, AbsRef):
        h = getattr(a.kind, 'issubclass', None)
        if h is not None:
            r = h(I, a, b)
            return I.decide(r) if not isinstance(r, bool) else r
    if isinstance(a, Ext):
        a = as_class(I, a)
    if isinstance(b, Ext):
        return any(kk.d.get('#ext') == b.name for kk in a.mro)
    if not isinstance(a, PyClass) or not isinstance(b, PyClass):
        raise I.exc('TypeError', 'issubclass() arg must be a class')
    return a.issub(b)


def b_sorted(I, a, k):
    m = I.ext_models.get('sorted')
    if m is not None:
        return m(I.path, a, k)
    seq = nrm(I, I.to_seq(a[0]))
    key = k.get('key')
    vals = [p.v if isinstance(p, Unit) else None for p in seq]
    ks = [v if key is None else I.call(key, (v,), {}) for v in vals]
    if all(isinstance(p, Unit) for p in seq) and all(isinstance(x, (str, int, float)) for x in ks):
        order = sorted(range(len(ks)), key=lambda i: ks[i], reverse=bool(k.get('reverse')))
        return PyList(seq_units([vals[i] for i in order]))
    raise Unsupported('sorted')


def b_sum(I, a, k):
    seq = I.to_seq(a[0])
    r = a[1] if len(a) > 1 else 0
    for p in nrm(I, seq):
        if isinstance(p, Unit):
            r = binop(I, ast.Add(), r, p.v)
        else:
            v = p.value(engine.E_)
            if not is_num(v):
                raise Unsupported('sum of %r' % (v,))
            m = Sum('sum', lambda v: I.path.num(v), REAL if is_real(v) else INT)
            r = binop(I, ast.Add(), r, num_value(m.eval(I.path, (p,))))
    return r


def b_minmax(which):
    def f(I, a, k):
        vals = a
        if len(a) == 1:
            vals = host_iter(I, a[0])
            if not vals:
                if 'default' in k:
                    return k['default']
                raise I.exc('ValueError', 'empty')
        key = k.get('key')
        r = I.force(vals[0])
        for v in vals[1:]:
            v = I.force(v)
            if key is None and is_num(r) and is_num(v):
                if not isinstance(r, SV) and not isinstance(v, SV):
                    r = v if (v > r if which == 'max' else v < r) else r
                    continue
                real = is_real(r) or is_real(v)
                x, y = (to_real(I, r), to_real(I, v)) if real else (I.path.num(r), I.path.num(v))
                # Python keeps the first of equal ones, also its type
                c = y > x if which == 'max' else y < x
                r = num_value(z3.If(c, y, x))
                continue
            x, y = (r, v) if key is None else (I.call(key, (r,), {}), I.call(key, (v,), {}))
            c = lt_term(I, x, y) if which == 'max' else lt_term(I, y, x)
            if I.decide(term(I, c)):
                r = v
        return r
    return f


def b_round(I, a, k):
    x = I.force(a[0])
    n = I.force(a[1]) if len(a) > 1 else None
    if not isinstance(x, SV):
        return round(x, n) if n is not None else round(x)
    if not (n is None or isinstance(n, int)):
        raise Unsupported('round')
    p = 10 ** (n or 0)
    f = uf('round%d' % (n or 0), REAL, INT)
    t = to_real(I, x)
    kk = f(t)
    I.path.add(z3.And(2 * (t * p - z3.ToReal(kk)) <= 1, 2 * (t * p - z3.ToReal(kk)) >= -1))
    if n is None:
        return SV('int', kk)
    if x.kind == 'int':
        return x
    return SV('real', z3.ToReal(kk) / p)


def b_divmod(I, a, k):
    return (I.binop(ast.FloorDiv(), a[0], a[1]), I.binop(ast.Mod(), a[0], a[1]))


def b_abs(I, a, k):
    x = I.force(a[0])
    if not isinstance(x, SV):
        if isinstance(x, (int, float)):
            return abs(x)
        raise I.exc('TypeError', 'bad operand for abs')
    t = I.path.num(x)
    return SV(x.kind if x.kind != 'bool' else 'int', z3.If(t < 0, -t, t))


def b_int(I, a, k):
    if not a:
        return 0
    x = I.force(a[0])
    m = I.ext_models.get('int')
    if m is not None:
        r = m(I.path, (x,) + tuple(a[1:]), k)
        if r is not NotImplemented:
            return r
    if isinstance(x, (int, float, str, bytes)):
        try:
            return int(x, *a[1:])
        except ValueError as e:
            raise I.exc('ValueError', str(e))
    if isinstance(x, SV):
        if x.kind == 'bool':
            return SV('int', z3.If(x.t, z3.IntVal(1), z3.IntVal(0)))
        if x.kind == 'int':
            return x
        if x.kind == 'real':
            return SV('int', z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)))
    if x is None or isinstance(x, (PyList, tuple)):
        raise I.exc('TypeError', 'int() argument')
    raise Unsupported('int(%r)' % (x,))


def b_float(I, a, k):
    if not a:
        return 0.0
    x = I.force(a[0])
    if isinstance(x, (int, float, str)):
        try:
            return float(x)
        except ValueError as e:
            raise I.exc('ValueError', str(e))
    if is_num(x):
        return SV('real', to_real(I, x))
    m = I.ext_models.get('float')
    if m is not None:
        return m(I.path, (x,), k)
    if x is None:
        raise I.exc('TypeError', 'float() argument')
    raise Unsupported('float(%r)' % (x,))


def b_bool(I, a, k):
    t = I.truth_term(a[0]) if a else False
    return t if isinstance(t, bool) else SV('bool', t)


def b_str(I, a, k):
    return py_str(I, a[0]) if a else ''


def b_id(I, a, k):
    u = I.path.to_u(I.force(a[0]))
    f, inv = uf('id', U, INT), uf('id.inv', INT, U)
    I.path.add(inv(f(u)) == u)
    return SV('int', f(u))


def b_hash(I, a, k):
    o = I.force(a[0])
    if isinstance(o, (PyObj, AbsRef)) and I.has_special(o, '__hash__'):
        return I.call(I.getattr_type(o, '__hash__'), (), {})
    check_hashable(I, o)
    return SV('int', uf('hash', U, INT)(I.path.to_u(o)))


def b_type(I, a, k):
    if len(a) == 1:
        v = I.force(a[0])
        f = getattr(v.kind, 'typeval', None) if isinstance(v, AbsRef) else None
        m = I.ext_models.get('type')
        r = m(I.path, (v,), {}) if m else NotImplemented
        if r is not NotImplemented:
            return r
        return f(I, v) if f else I.type_of(v)
    return I.build_class(None, a[0], list(a[1]), dict(host_items(I, a[2])))


def b_getattr(I, a, k):
    o, n = a[0], I.force(a[1])
    if not isinstance(n, str):
        m = I.ext_models.get('getattr')
        if m is not None:
            return m(I.path, a, k)
        raise Unsupported('getattr with a symbolic name')
    try:
        return I.getattr(o, n)
    except PyExc as e:
        if len(a) > 2 and I.exc_is(e, 'AttributeError'):
            return a[2]
        raise


def b_hasattr(I, a, k):
    try:
        b_getattr(I, a[:2], {})
        return True
    except PyExc as e:
        if I.exc_is(e, 'AttributeError'):
            return False
        raise


def b_callable(I, a, k):
    o = I.force(a[0])
    if isinstance(o, (PyFunc, Builtin, BoundMethod, PyClass, PartialV, Ext)):
        return True
    if isinstance(o, PyObj):
        return o.cls.lookup('__call__') is not MISSING
    if isinstance(o, AbsRef):
        return 'call' in vars(o.kind) or I.has_special(o, '__call__')
    return False


class ZipV(object):
    """zip of sequences of the same length, at least one of them abstract."""

    def __init__(self, seqs, main):
        self.seqs, self.main = seqs, main

    def item(self, I, v, done):
        n = num_value(I.path.length(done))
        return tuple(v if i == self.main else seq_index(I, s, n)[1] for i, s in enumerate(self.seqs))


def zip_alike(I, a):
    path = I.path
    if path is None or len(a) < 2 or not all(isinstance(x, (PyList, SeqVal, tuple)) for x in a):
        return None
    seqs = [nrm(I, I.iter_source(x)[1]) for x in a]
    if not any(isinstance(p, Var) for s in seqs for p in s):
        return None
    n = path.length(seqs[0])
    if not all(path.must(path.length(s) == n) for s in seqs[1:]):
        return None

    # the abstract sequence that was there first is walked along
    some = [i for i, s in enumerate(seqs) if any(isinstance(p, Var) for p in s)]
    return ZipV(seqs, min(some, key=lambda i: getattr(a[i], 'serial', -1)))


def b_zip(I, a, k):
    its = []
    z = zip_alike(I, a)
    if z is not None:
        return z
    for x in a:
        if isinstance(x, (PyGen, GenModel, IterObj, Count)):
            break
        s = I.iter_source(x)
        if s[0] != 'seq':
            break
        q = nrm(I, s[1])
        if any(isinstance(p, Var) for p in q):
            break
        its.append(q)
    else:
        return IterObj(seq_units([tuple(p.v for p in t) for t in zip(*its)]))
    srcs = [I.iter_of(x) for x in a]

    def gen():
        while True:
            out = []
            for s in srcs:
                try:
                    out.append(I.next_of(s))
                except PyExc as e:
                    if I.exc_is(e, 'StopIteration'):
                        return
                    raise
            yield tuple(out)
    return host_gen(I, gen(), 'zip')


def host_gen(I, g, name):
    fr = Frame(None, I.stack[-1].module if I.stack else None, None, set(), 'func')
    fr.node = I.stack[-1].node if I.stack else None
    return PyGen(g, fr, name)


def b_map(I, a, k):
    f = a[0]
    srcs = [I.iter_of(x) for x in a[1:]]
    if len(srcs) == 1 and isinstance(srcs[0], IterObj):
        seq = nrm(I, srcs[0].d['seq'])
        if all(isinstance(p, Unit) for p in seq) is False:
            pass

    def gen():
        while True:
            out = []
            for s in srcs:
                try:
                    out.append(I.next_of(s))
                except PyExc as e:
                    if I.exc_is(e, 'StopIteration'):
                        return
                    raise
            yield I.call(f, tuple(out), {})
    return host_gen(I, gen(), 'map')


def b_filter(I, a, k):
    src = I.iter_of(a[1])

    def gen():
        while True:
            try:
                v = I.next_of(src)
            except PyExc as e:
                if I.exc_is(e, 'StopIteration'):
                    return
                raise
            if I.truth(v if a[0] is None else I.call(a[0], (v,), {})):
                yield v
    return host_gen(I, gen(), 'filter')


def b_any(all_):
    def f(I, a, k):
        it = I.iter_of(a[0])
        while True:
            try:
                v = I.next_of(it)
            except PyExc as e:
                if I.exc_is(e, 'StopIteration'):
                    return all_
                raise
            if I.truth(v) != all_:
                return not all_
    return f


def b_next(I, a, k):
    try:
        return I.next_of(a[0])
    except PyExc as e:
        if len(a) > 1 and I.exc_is(e, 'StopIteration'):
            return a[1]
        raise


def b_iter(I, a, k):
    if len(a) == 2:
        f, sentinel = a

        def gen():
            while True:
                v = I.call(f, (), {})
                if keq(I, v, sentinel):
                    return
                yield v
        return host_gen(I, gen(), 'iter')
    return I.iter_of(I.force(a[0]))


def b_reversed(I, a, k):
    seq = nrm(I, I.to_seq(a[0]))
    return IterObj(I.path.rev(seq) if I.path is not None else tuple(reversed(seq)))


def b_range(I, a, k):
    a = [I.force(x) for x in a]
    if all(isinstance(x, int) for x in a):
        r = range(*a)
        if len(r) > 300 and r.step == 1 and I.path is not None:
            return SymRange(r.start, r.stop)
        return r
    m = I.ext_models.get('range')
    if m is not None:
        return m(I.path, a, k)
    if len(a) < 3 and all(isinstance(x, int) or isinstance(x, SV) and x.kind == 'int' for x in a):
        return SymRange(*((0,) + tuple(a))[-2:])
    raise Unsupported('range over a symbolic bound')


def c_list(kind):
    def f(I, c, a, k):
        return PyList(tuple(I.to_seq(a[0])) if a else (), kind)
    return f


def c_tuple(I, c, a, k):
    if not a:
        return ()
    s = nrm(I, I.to_seq(a[0]))
    if all(isinstance(p, Unit) for p in s):
        return tuple(p.v for p in s)
    return SeqVal(s)


def c_dict(I, c, a, k):
    d = PyDict()
    if a and isinstance(a[0], PyDict):
        d = PyDict(a[0].d['c'])
        a = ()
    dict_update(I, d, a[0] if a else None, k)
    return d


def c_set(I, c, a, k):
    frozen = c.name == 'frozenset'
    if a:
        x = I.force(a[0])
        if dict_part(x) is not None:
            return PySet(dict_part(x), frozen)
        if isinstance(x, AbsRef):
            r = x.kind.getattr(I, x, '__set__')
            if r is not NotImplemented:
                return I.call(r, (), {})
        s = PySet()
        seq = nrm(I, I.to_seq(x))
        vars_ = tuple(p for p in seq if isinstance(p, Var))
        if vars_:
            s.d['c'] = set_of(I, lambda k: z3.Or([member_term(I, p, k) for p in vars_]), I.path.seq_kind(vars_))
        for p in seq:
            if isinstance(p, Unit):
                dict_set(I, s, p.v, True)
        s.frozen = frozen
        return s
    return PySet(None, frozen)


# --- the C API used by profiling/speedup.c -------------------------------------

def c_api(I):
    none = Ext('Py_None')

    def api(name, fn):
        return Builtin(name, lambda I, a, k: fn(I, *a))

    def append(I, l, x):
        _l_append(I, l, x)
        return 0

    def reverse(I, l):
        _l_reverse(I, l)
        return 0

    def insert(I, l, i, x):
        _l_insert(I, l, i, x)
        return 0

    def has(I, s, x):
        t = contains(I, s, x)
        return int(t) if isinstance(t, bool) else SV('int', z3.If(t, z3.IntVal(1), z3.IntVal(0)))

    def new(I, n):
        if n != 0:
            raise Unsupported('PyList_New of a non-zero size')
        return PyList()
    d = {'Py_None': none, 'PyList_New': api('PyList_New', new), 'PyList_Append': api('PyList_Append', append),
         'PyList_Reverse': api('PyList_Reverse', reverse), 'PyList_Insert': api('PyList_Insert', insert),
         'PySet_Contains': api('PySet_Contains', has), 'PySequence_Contains': api('PySequence_Contains', has),
         'PyList_Size': api('PyList_Size', lambda I, l: b_len(I, (l,), {})),
         'PyFrame_GetCode': api('PyFrame_GetCode', lambda I, f: I.getattr(f, 'f_code'))}
    for n in ('Py_DecRef', 'Py_IncRef'):
        d[n] = api(n, lambda I, x: None)
    return d


def c_export(I, fn):
    none = I.modules['profiling.speedup'].d['Py_None']

    def call(I, a, k):
        I.ext_used['profiling.speedup (C API models)'] = True
        args = tuple(none if I.force(x) is None else I.force(x) for x in a)
        r = I.call(fn, (None, args), {})
        return None if r is none else r
    return Builtin(fn.name, call)


def b_setattr(I, a, k):
    n = I.force(a[1])
    if not isinstance(n, str):
        raise Unsupported('setattr with a symbolic name')
    I.setattr(a[0], n, a[2])


def b_import(I, a, k):
    name = a[0]
    m = I.ext_models.get('__import__')
    if m is not None:
        return m(I.path, a, k)
    return module(I, name.split('.')[0])


def b_vars(I, a, k):
    o = a[0]
    return NsDict(o)


# --- models that are plain Python semantics ----------------------------------

def m_wraps(I, a, k):
    wrapped = a[0]

    def deco(I, b, kw):
        g = b[0]
        if isinstance(g, PyFunc) and isinstance(wrapped, PyFunc):
            for n, v in wrapped.d.items():
                if not n.startswith('#'):
                    I.write(g, n, v)
            I.write(g, '__wrapped__', wrapped)
        return g
    return Builtin('functools.wraps', deco)


def m_partial(I, a, k):
    return PartialV(a[0], a[1:], k)


def m_contextmanager(I, a, k):
    f = a[0]

    def make(I, b, kw):
        o = PyObj(classes['_GeneratorContextManager'])
        o.d['gen'] = I.call(f, b, kw)
        return o
    return Builtin('contextmanager', make)


def m_suppress(I, a, k):
    o = PyObj(classes['suppress'])
    o.d['exceptions'] = tuple(a)
    return o


def suppress_exit(I, a, k):
    v = a[2]
    return v is not None and I.exc_match(v, a[0].d['exceptions'])


def m_closing(I, a, k):
    o = PyObj(classes['closing'])
    o.d['thing'] = a[0]
    return o


def closing_exit(I, a, k):
    I.call(I.getattr(a[0].d['thing'], 'close'), (), {})
    return False


def gcm_enter(I, a, k):
    o = a[0]
    try:
        return I.next_of(o.d['gen'])
    except PyExc as e:
        if I.exc_is(e, 'StopIteration'):
            raise I.exc('RuntimeError', "generator didn't yield")
        raise


def gcm_exit(I, a, k):
    o, t, v = a[0], a[1], a[2]
    g = o.d['gen']
    if v is None:
        try:
            I.next_of(g)
        except PyExc as e:
            if I.exc_is(e, 'StopIteration'):
                return False
            raise
        raise I.exc('RuntimeError', "generator didn't stop")
    try:
        I.resume(g, v)
    except PyExc as e:
        if I.exc_is(e, 'StopIteration'):
            return e.value is not v
        if e.value is v:
            return False
        raise
    raise I.exc('RuntimeError', "generator didn't stop after throw()")


def m_with_metaclass(I, a, k):
    return ('with_metaclass', a[0], tuple(a[1:]))


def m_itervalues(I, a, k):
    return I.iter_of(I.call(I.getattr(a[0], 'values'), (), {}))


def m_some_count(I, a, k):
    v = SV('int', I.path.fresh('count', z3.IntSort()))
    I.path.add(v.t >= 1)
    return v


def m_count(I, a, k):
    return Count(a[0] if a else k.get('start', 0), a[1] if len(a) > 1 else k.get('step', 1))


def m_chain(I, a, k):
    out = ()
    for x in a:
        out += tuple(I.to_seq(x))
    return IterObj(out)


def click_init(I, o, a, k):
    cb = k.get('callback')
    I.write(o, 'name', k.get('name', a[0] if a else None))
    I.write(o, 'callback', cb)
    ps = cb.d.get('__click_params__') if isinstance(cb, PyFunc) else None
    I.write(o, 'params', PyList(tuple(reversed(ps.d['seq'])) if ps is not None else ()))
    I.write(o, 'commands', PyDict())


def m_click_command(I, a, k):
    k = dict(k)
    cls = k.pop('cls', None)
    name = a[0] if a else k.pop('name', None)

    def deco(I, b, kw):
        f = b[0]
        own = f.d.get('__name__', f.name)
        n = name if name is not None else own.lower().replace('_', '-')
        c = as_class(I, cls if cls is not None else Ext('click.Command'))
        kk = dict(k)
        kk['name'] = n
        kk['callback'] = f
        return I.type_call(c, (), kk)
    return Builtin('click.command', deco)


def m_group_command(I, a, k):
    g = a[0]
    inner = m_click_command(I, a[1:], k)

    def deco(I, b, kw):
        cmd = I.call(inner, b, kw)
        dict_set(I, g.d['commands'], cmd.d['name'], cmd)
        return cmd
    return Builtin('click.Group.command', deco)


def m_group_get(I, a, k):
    g, ctx, name = a[:3]
    return dict_get(I, g.d['commands'], name, None)


def m_click_param(kind):
    def f(I, a, k):
        def deco(I, b, kw):
            fn = b[0]
            p = PyObj(classes['ClickParameter'])
            p.d['kind'] = kind
            p.d['decls'] = tuple(a)
            for n, v in k.items():
                p.d['k_' + n] = v
            if isinstance(fn, PyFunc):
                l = fn.d.get('__click_params__')
                if l is None:
                    l = PyList()
                    I.write(fn, '__click_params__', l)
                _l_append(I, l, p)
            return fn
        return Builtin('click.' + kind, deco)
    return f


def m_identity_deco(I, a, k):
    return Builtin('decorator', lambda I, b, kw: b[0])


def m_fail(I, a, k):
    raise I.exc('BadParameter', *a[1:])


def m_valuedispatch(I, a, k):
    o = PyObj(classes['ValueDispatch'])
    o.d['default'] = a[0]
    o.d['table'] = PyDict()
    return o


def vd_register(I, a, k):
    o, value = a[0], a[1]

    def deco(I, b, kw):
        dict_set(I, o.d['table'], value, b[0])
        return b[0]
    return Builtin('register', deco)


def vd_call(I, a, k):
    o = a[0]
    f = dict_get(I, o.d['table'], a[1], o.d['default'])
    return I.call(f, a[1:], k)


def m_import_module(I, a, k):
    return I.import_module(a[0])


def m_exc_info(I, a, k):
    for f in I.stack[::-1]:
        if f.exc:
            e = f.exc[-1]
            return (e.cls, e, Ext('traceback'))
    return (None, None, None)


DEFAULT_EXT = {
    'sys.exc_info': m_exc_info,
    'functools.wraps': m_wraps, 'functools.partial': m_partial, 'contextlib.contextmanager': m_contextmanager,
    'contextlib.suppress': m_suppress, 'contextlib.closing': m_closing,
    'six.with_metaclass': m_with_metaclass, 'six.itervalues': m_itervalues, 'itertools.count': m_count,
    'itertools.chain': m_chain, 'threading.active_count': m_some_count, 'sys.getrecursionlimit': m_some_count,
    'os.getpid': m_some_count,
    'click.command': m_click_command, 'click.option': m_click_param('option'), 'click.argument': m_click_param('argument'),
    'click.version_option': m_identity_deco, 'asyncio.coroutine': lambda I, a, k: a[0],
    'click_default_group.DefaultGroup.__init__': lambda I, a, k: click_init(I, a[0], a[1:], k),
    'click_default_group.DefaultGroup.command': m_group_command,
    'click_default_group.DefaultGroup.get_command': m_group_get,
    'click.Command.__init__': lambda I, a, k: click_init(I, a[0], a[1:], k),
    'click.ParamType.fail': m_fail, 'click.File.fail': m_fail,
    'valuedispatch.valuedispatch': m_valuedispatch,
    'importlib.import_module': m_import_module,
}


STATE = ('builtins', 'classes', 'extclasses', 'modules', 'object_class', 'type_class')


def state():
    """What belongs to one world."""
    return {n: globals()[n] for n in STATE}


def install(I):
    global object_class, type_class, builtins, classes, extclasses, modules
    builtins, classes, extclasses, modules = {}, {}, {}, {}
    object_class = mkclass('object')
    type_class = mkclass('type', [object_class])
    O = [object_class]

    def B_(name, fn):
        builtins[name] = Builtin(name, fn)
        return builtins[name]
    for n, f in {'len': b_len, 'sorted': b_sorted, 'sum': b_sum, 'max': b_minmax('max'), 'min': b_minmax('min'),
                 'round': b_round, 'divmod': b_divmod, 'abs': b_abs, 'id': b_id, 'hash': b_hash,
                 'getattr': b_getattr, 'hasattr': b_hasattr, 'callable': b_callable, 'zip': b_zip, 'map': b_map,
                 'filter': b_filter, 'any': b_any(False), 'all': b_any(True), 'next': b_next, 'iter': b_iter,
                 'reversed': b_reversed, 'range': b_range, 'setattr': b_setattr, '__import__': b_import,
                 'vars': b_vars,
                 'repr': lambda I, a, k: py_repr(I, a[0]),
                 'format': lambda I, a, k: format_value(I, a[0], a[1] if len(a) > 1 else ''),
                 'delattr': lambda I, a, k: I.delattr(a[0], a[1]),
                 'isinstance': lambda I, a, k: isinstance_v(I, a[0], a[1]),
                 'issubclass': lambda I, a, k: issubclass_v(I, a[0], a[1]),
                 'enumerate': lambda I, a, k: EnumV(a[0], a[1] if len(a) > 1 else k.get('start', 0)),
                 'locals': None, 'globals': None}.items():
        B_(n, f)
    for n, c in {'int': b_int, 'float': b_float, 'str': b_str, 'bool': b_bool}.items():
        base = O if n != 'bool' else [classes['int']]
        builtins[n] = mkclass(n, base, construct=lambda I, c, a, k, f=c: f(I, a, k))
    builtins['list'] = mkclass('list', O, construct=c_list('list'))
    classes['deque'] = mkclass('deque', O, construct=c_list('deque'))
    builtins['tuple'] = mkclass('tuple', O, construct=c_tuple)
    builtins['dict'] = mkclass('dict', O, construct=c_dict)
    builtins['set'] = mkclass('set', O, construct=c_set)
    builtins['frozenset'] = mkclass('frozenset', O, construct=c_set)
    builtins['bytes'] = mkclass('bytes', O)
    builtins['object'] = object_class
    builtins['type'] = type_class
    type_class.construct = lambda I, c, a, k: b_type(I, a, k)
    builtins['property'] = mkclass('property', O, construct=lambda I, c, a, k: PropertyV(
        *(list(a) + [k.get(n) for n in ('fget', 'fset', 'fdel')][len(a):])))
    builtins['staticmethod'] = mkclass('staticmethod', O, construct=lambda I, c, a, k: StaticM(a[0]))
    builtins['classmethod'] = mkclass('classmethod', O, construct=lambda I, c, a, k: ClassM(a[0]))
    builtins['super'] = mkclass('super', O, construct=lambda I, c, a, k: SuperObj(a[0], a[1]))
    for n in ('NoneType', 'function', 'method', 'generator', 'partial', 'module', 'range'):
        mkclass(n, O)
    # exceptions
    def walk(e, base):
        c = mkclass(e.__name__, [base] if base else O, construct=construct_exc)
        builtins[e.__name__] = c
        for s in e.__subclasses__():
            if s.__module__ == 'builtins' and s.__name__ not in classes:
                walk(s, c)
    walk(BaseException, None)
    builtins['IOError'] = builtins['EnvironmentError'] = classes['OSError']
    builtins['NotImplemented'] = Ext('NotImplemented')
    builtins['Ellipsis'] = Ext('Ellipsis')
    for n in ('open', 'print', 'compile', 'exec', 'eval', 'input'):
        builtins[n] = Ext(n)
    builtins['__debug__'] = True
    E = classes['Exception']
    for n in ('UsageError', 'BadParameter', 'NoOptionError', 'NoSectionError', 'ExitMainLoop', 'PickleError',
              'UnpicklingError', 'struct.error'):
        mkclass(n, [E], construct=construct_exc)
    mkclass('timeout', [classes['OSError']], construct=construct_exc)
    g = mkclass('_GeneratorContextManager', O, {'__enter__': Builtin('__enter__', gcm_enter),
                                               '__exit__': Builtin('__exit__', gcm_exit)})
    mkclass('suppress', O, {'__enter__': Builtin('__enter__', lambda I, a, k: a[0]),
                            '__exit__': Builtin('__exit__', suppress_exit)})
    mkclass('closing', O, {'__enter__': Builtin('__enter__', lambda I, a, k: a[0].d['thing']),
                           '__exit__': Builtin('__exit__', closing_exit)})
    mkclass('ClickParameter', O)
    mkclass('ValueDispatch', O, {'register': Builtin('register', vd_register), '__call__': Builtin('__call__', vd_call)})
    # modules
    for m in (h_errno, h_signal, h_stat, h_socket, h_os, h_select):
        e = modules[m.__name__] = Ext(m.__name__)
        host_consts(m, e)
    modules['signal'].attrs['SIG_DFL'] = Ext('signal.SIG_DFL')
    modules['signal'].attrs['SIG_IGN'] = Ext('signal.SIG_IGN')
    modules['socket'].attrs['error'] = modules['socket'].attrs['SocketError'] = classes['OSError']
    modules['socket'].attrs['timeout'] = classes['timeout']
    modules['select'].attrs['error'] = classes['OSError']
    modules['os'].attrs['error'] = classes['OSError']
    c = modules['collections'] = Ext('collections')
    c.attrs['deque'] = classes['deque']
    s = modules['six'] = Ext('six')
    mv = s.attrs['moves'] = Ext('six.moves')
    mv.attrs['zip'] = builtins['zip']
    mv.attrs['range'] = builtins['range']
    mv.attrs['map'] = builtins['map']
    mv.attrs['filter'] = builtins['filter']
    b = mv.attrs['builtins'] = Ext('builtins')
    b.attrs.update(builtins)
    modules['builtins'] = b
    cp = mv.attrs['configparser'] = Ext('configparser')
    cp.attrs['NoOptionError'] = classes['NoOptionError']
    cp.attrs['NoSectionError'] = classes['NoSectionError']
    mv.attrs['_thread'] = Ext('_thread')
    modules['pickle'] = p = Ext('pickle')
    p.attrs['HIGHEST_PROTOCOL'] = 5
    p.attrs['DEFAULT_PROTOCOL'] = 4
    p.attrs['PickleError'] = classes['PickleError']
    p.attrs['UnpicklingError'] = classes['UnpicklingError']
    modules['struct'] = st = Ext('struct')
    st.attrs['error'] = classes['struct.error']
    modules['sys'] = sy = Ext('sys')
    sy.attrs['version_info'] = (3, 9, 16, 'final', 0)
    sy.attrs['platform'] = 'linux'
    ck = modules['click'] = Ext('click')
    ck.attrs['UsageError'] = classes['UsageError']
    ck.attrs['BadParameter'] = classes['BadParameter']
    ur = modules['urwid'] = Ext('urwid')
    ur.attrs['ExitMainLoop'] = classes['ExitMainLoop']
    ur.attrs['CURSOR_RIGHT'] = 'cursor right'
    ur.attrs['CURSOR_LEFT'] = 'cursor left'
    ur.attrs['CURSOR_UP'] = 'cursor up'
    ur.attrs['CURSOR_DOWN'] = 'cursor down'
    ur.attrs['ACTIVATE'] = 'activate'
