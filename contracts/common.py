"""Shared pieces of the contracts: abstract kinds, helpers on the path API."""
import ast
import os
import z3
from pyv.terms import U, SeqS, uf, I as INT, R as REAL, B as BOOL
from pyv.values import *
from pyv.engine import zb, LEN, Sum, FlatMap, Fold, At, count, NA, PathEnd
from pyv import engine, lib

REPO = os.environ.get('PROFILING_REPO', '/repo')
BASE_MODULES = ['profiling.utils', 'profiling.sortkeys', 'profiling.stats', 'profiling.viewer', 'profiling.profiler',
                'profiling.tracing.timers', 'profiling.tracing', 'profiling.sampling.samplers', 'profiling.sampling',
                'profiling.remote', 'profiling.remote.select', 'profiling.remote.client',
                'profiling.remote.background', 'profiling.remote.gevent', 'profiling.remote.asyncio',
                'profiling.__main__']

CONTRACTS = {}


class Contract(object):
    def __init__(self, prop, name, fn, modules, opts, proves, speedup):
        self.prop, self.name, self.fn = prop, name, fn
        self.modules, self.opts, self.proves, self.speedup = modules, opts, proves, speedup


def contract(prop, name, modules=(), speedup=False, proves='', **opts):
    """Register a proof harness; it is one contract of a property."""
    def deco(fn):
        CONTRACTS.setdefault(prop, []).append(Contract(prop, name, fn, list(modules), opts, proves, speedup))
        return fn
    return deco


# --- kinds -------------------------------------------------------------------

class Kind(object):
    """An abstract reference kind whose attributes are functions of the reference."""

    def __init__(self, name, attrs=None, cls=None, fact=None, handler=None):
        self.name = name
        self.attrs = attrs or {}      # attribute -> kind
        self.cls = cls                # callable(I) -> PyClass
        self._fact = fact
        self.handler = handler        # handler(I, o, name) -> value or NotImplemented

    def fact(self, path, u):
        return self._fact(path, u) if self._fact else None

    def pyclass(self, I, o):
        return self.cls(I) if self.cls else None

    def attr_u(self, u, name):
        return uf('%s.%s' % (self.name, name), U, U)(u)

    def attr(self, path, u, name):
        k = self.attrs[name]
        t = self.attr_u(u, name)
        if not path.interp.pure:
            path.add(path.kind_fact(k, t))
        return path.from_u(k, t)

    def getattr(self, I, o, name):
        if self.handler is not None:
            r = self.handler(I, o, name)
            if r is not NotImplemented:
                return r
        if name in self.attrs:
            return self.attr(I.path, o.t, name)
        return NotImplemented

    def setattr(self, I, o, name, v):
        return NotImplemented

    def call(self, I, o, args, kwargs):
        return NotImplemented

    def truth(self, I, o):
        return NotImplemented

    def __repr__(self):
        return '<kind %s>' % self.name


CODE = Kind('code', {'co_name': 'str', 'co_filename': 'str', 'co_firstlineno': 'int', 'co_flags': 'int', 'co_argcount': 'int'})
FRAME = Kind('frame', {'f_code': ('ref', CODE), 'f_lineno': 'int'})
FRAME.attrs['f_back'] = ('opt', ('ref', FRAME))
OPAQUE = Kind('opaque')


# --- helpers -----------------------------------------------------------------

def get(path, obj, name):
    return path.interp.getattr(obj, name)


def call(path, f, *args, **kwargs):
    return path.interp.call(f, args, kwargs)


def cls(path, qual):
    """'profiling.stats:Statistics' -> the class (or function) object."""
    mod, _, name = qual.partition(':')
    o = path.interp.modules[mod]
    for n in name.split('.'):
        o = path.interp.getattr(o, n)
    return o


def fresh(path, kind, name='v'):
    v = path.fresh_value(kind, name)
    return v


def ref(path, kind, name):
    return path.fresh_value(('ref', kind), name)


def attempt(path, fn):
    """(result, None) or (None, exception object)"""
    try:
        return fn(), None
    except PyExc as e:
        return None, e.value


def is_exc(path, e, name):
    return e is not None and e.cls.issub(lib.exception_class(path.interp, name))


def seq_of(path, v):
    return path.norm(path.interp.to_seq(v))


def eq(path, a, b):
    return zb(lib.term(path.interp, lib.eq_value(path.interp, a, b)))


def new(path, qual, *args, **kwargs):
    return path.interp.call(cls(path, qual), args, kwargs)


def obj(path, qual, **attrs):
    """An instance without running its constructor."""
    c = cls(path, qual)
    o = PyObj(c)
    for k, v in attrs.items():
        o.d[k] = v
    return o


def model(path, name, fn):
    path.interp.ext_models[name] = fn


def num(path, v):
    return path.num(v)


_programs = {}


def program(path, src, **names):
    """Functions written in Python and interpreted like the code itself: `src`
    defines `main`; returns it."""
    tree = _programs.get(src)
    if tree is None:
        import textwrap
        tree = _programs[src] = ast.parse(textwrap.dedent(src))
    I = path.interp
    mod = PyModule('contract')
    mod.d.update(names)
    mod.d['__name__'] = 'contract'
    fr = engine_frame(mod)
    I.stack.append(fr)
    try:
        I.drive(I.exec_block(tree.body, fr))
    finally:
        I.stack.pop()
    return mod.d['main']


def engine_frame(mod):
    return Frame(None, mod, None, None, 'module')


ARGS = Kind('args')
ARGS.args = True


class GhostTrace(object):
    """A ghost list of events in the path's ghost state."""

    def __init__(self, path, name='trace'):
        self.path, self.name = path, name
        path.ghost.d[name] = ()

    def add(self, v):
        path = self.path
        path.write(path.ghost, self.name, path.ghost.d[self.name] + (Unit(v),))

    @property
    def seq(self):
        return self.path.ghost.d[self.name]


class Snapshot(object):
    """The state reachable from some objects; `unchanged` says whether all of it is as it was."""

    def __init__(self, path, *roots, **kw):
        self.path = path
        self.skip = kw.get('skip', ())        # attribute names not looked at
        self.objs = {}
        todo = list(roots)
        while todo:
            o = todo.pop()
            if isinstance(o, (tuple, list)):
                todo.extend(o)
                continue
            if isinstance(o, Unit):
                todo.append(o.v)
                continue
            if isinstance(o, DictC):
                for k, v, _ in o.items:
                    todo += [k, v]
                continue
            if not isinstance(o, Mutable) or isinstance(o, (PyClass, PyModule, PyFunc, Frame)) or o.serial in self.objs:
                continue
            self.objs[o.serial] = (o, dict(o.d))
            todo.extend(v for k, v in o.d.items() if k not in self.skip)

    def same(self, a, b):
        if a is b:
            return z3.BoolVal(True)
        if isinstance(a, DictC) and isinstance(b, DictC):
            if a.base is not b.base or len(a.items) != len(b.items):
                return z3.BoolVal(False)
            out = []
            for (k, v, i), (k2, v2, i2) in zip(a.items, b.items):
                out += [self.same(k, k2), self.same(v, v2)]
            return z3.And(*out) if out else z3.BoolVal(True)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return zb(self.path.seq_eq(a, b))
        if isinstance(a, Mutable) or isinstance(b, Mutable):
            return z3.BoolVal(False)
        return eq(self.path, a, b)

    def unchanged(self):
        out = []
        for o, d in self.objs.values():
            for k in set(d) | set(o.d):
                if k in self.skip:
                    continue
                if k not in d or k not in o.d:
                    return z3.BoolVal(False)
                out.append(self.same(d[k], o.d[k]))
        return z3.And(*out) if out else z3.BoolVal(True)


PROG_PROFILER = '''
def main(Base):
    class P(Base):
        def run(self, *args):
            yield
    return P
'''


def dict_of(o, name):
    """The dictionary behind an attribute, if it is one."""
    d = o.d.get(name)
    return d if isinstance(d, PyDict) else None


def copied(lv):
    """Candidates: a list collects what the loop went over."""
    if lv.is_for:
        for label, s, s0, k in lv.seq_locs():
            yield ('%s is what was visited' % label, lambda s=s: ('seqeq', s(), lv.P))
            yield ('%s is what was visited, appended' % label, lambda s=s, s0=s0: ('seqeq', s(), s0() + lv.P))
