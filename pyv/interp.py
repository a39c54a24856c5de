"""Symbolic interpreter for the Python subset used by the repository.

Statements are host generators (so that `yield` suspends), expressions are plain
functions.  The text that is interpreted is parsed from the repository on every run.
"""
import ast
import builtins
import os
import z3
from .terms import U, uf, I, R, B, SeqS
from .values import *
from .engine import *
from . import engine


HOST_BUILTINS = set(dir(builtins))


class ReturnSig(BaseException):
    def __init__(self, v):
        self.v = v


class BreakSig(BaseException):
    pass


class ContinueSig(BaseException):
    pass


class Cut(object):
    pass


def local_names(node):
    """Names bound in a function body (not in nested scopes)."""
    names, glob, nonl = set(), set(), set()

    def args(a):
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            names.add(x.arg)
        if a.vararg:
            names.add(a.vararg.arg)
        if a.kwarg:
            names.add(a.kwarg.arg)

    def visit(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and not top:
            names.add(n.name)
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                visit(d)
            return
        if isinstance(n, ast.Lambda) and not top:
            for d in n.args.defaults:
                visit(d)
            return
        if isinstance(n, ast.ClassDef) and not top:
            names.add(n.name)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and not top:
            visit(n.generators[0].iter)
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    names.add(w.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            visit(c)
    if isinstance(node, (ast.FunctionDef, ast.Lambda)):
        args(node.args)
        body = node.body if isinstance(node.body, list) else [node.body]
        for s in body:
            visit(s)
    elif isinstance(node, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        for g in node.generators:
            visit(g.target)
            for c in g.ifs:
                visit(c)
        for g in node.generators[1:]:
            visit(g.iter)
        for f in ('elt', 'key', 'value'):
            if hasattr(node, f):
                visit(getattr(node, f))
    else:
        for s in node.body:
            visit(s)
    return names - glob - nonl, glob, nonl


def has_yield(node):
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Interp(object):

    def __init__(self, world, root, speedup=False):
        self.world = world
        self.root = root
        self.speedup = speedup      # load profiling/speedup.c as profiling.speedup
        self.modules = {}
        self.stack = []
        self.pure = False
        self.path = None
        self.models = {}        # qualname -> callable(path, args, kwargs): callee contracts
        self.ext_models = {}    # dotted name -> callable: trusted models of externals
        self.skip_model = set()
        self.sources = {}
        self.trees = {}
        self.info = {}
        self.loading = 0
        self.used = {}          # qualname -> how ('inlined', 'contract')
        self.ext_used = {}
        self.calldepth = 0
        self.allow_opaque = set()
        self.unroll = set()     # function qualnames whose loops are unrolled
        self.unroll_yields = False      # while loops which yield are unrolled
        self.candidates = None
        self.classes = {}
        from . import lib
        self.lib = lib
        self.reset(None)
        lib.install(self)

    def reset(self, path):
        self.path = path
        self.stack = []
        self.pure = False
        self.models = {}
        self.ext_models = {}
        self.skip_model = set()
        self.allow_opaque = set()
        self.unroll = set()
        self.unroll_yields = False
        self.candidates = None
        self.calldepth = 0
        self.ext_attrs = {}
        self.cls_hooks = {}
        self.alloc_hooks = {}
        self.pure_base = 0

    def where(self):
        for fr in reversed(self.stack):
            n = fr.node
            if n is not None and fr.module is not None:
                return '%s:%s' % (fr.module.name, getattr(n, 'lineno', '?'))
        return ''

    # modules -------------------------------------------------------------
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name.startswith('@'):
            # a dependency as a program of our own
            f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', name[1:] + '_model.py')
            return self.load_file(name[1:], f)
        if '.' in name:
            pm = self.load(name.rpartition('.')[0])
            if name in self.modules:
                return self.modules[name]
        rel = name.replace('.', '/')
        for p in (rel + '/__init__.py', rel + '.py'):
            f = os.path.join(self.root, p)
            if os.path.exists(f):
                break
        else:
            return None
        mod = self.load_file(name, f)
        if '.' in name and pm is not None:
            pm.d.setdefault(name.rpartition('.')[2], mod)
        return mod

    def load_file(self, name, f):
        with open(f) as fh:
            src = fh.read()
        tree = ast.parse(src, f)
        self.sources[name] = src
        self.trees[name] = tree
        mod = PyModule(name)
        mod.d.update(__name__=name, __file__=f, __doc__=None,
                     __package__=name if f.endswith('__init__.py') else name.rpartition('.')[0])
        self.modules[name] = mod
        fr = Frame(None, mod, None, None, 'module')
        self.loading += 1
        self.stack.append(fr)
        try:
            self.drive(self.exec_block(tree.body, fr))
        finally:
            self.stack.pop()
            self.loading -= 1
        return mod

    def load_c(self, name):
        from . import cfront
        if name + '#api' in self.modules:
            return self.modules[name + '#api']
        f = os.path.join(self.root, name.replace('.', '/') + '.c')
        funcs, table = cfront.translate(f)
        mod = PyModule(name)
        self.modules[name] = mod
        mod.d.update(__name__=name, __file__=f, __doc__=None)
        mod.d.update(self.lib.c_api(self))
        fr = Frame(None, mod, None, None, 'module')
        for n, node in funcs.items():
            mod.d[n] = PyFunc(node, n, n, mod, (), {}, fr, False)
        exports = {n: self.lib.c_export(self, mod.d[c]) for n, c in table.items()}
        api = PyModule(name)
        api.d.update(exports)
        api.d['__name__'] = name
        self.modules[name + '#api'] = api
        return api

    def import_module(self, name):
        if name == 'profiling' or name.startswith('profiling.'):
            m = self.load(name)
            if m is None:
                raise self.exc('ImportError', 'No module named %s' % name)
            return m
        if name in self.modules:
            return self.modules[name]
        return self.lib.module(self, name)

    # exceptions ----------------------------------------------------------
    def exc(self, clsname, *args, **attrs):
        """A PyExc for a builtin exception class."""
        c = clsname if isinstance(clsname, PyClass) else self.lib.exception_class(self, clsname)
        if len(args) >= 2:
            c = self.lib.os_error_class(c, args[0])
        o = PyObj(c)
        self.init_attr(o, 'args', tuple(args))
        if c.issub(self.lib.exception_class(self, 'OSError')):
            self.init_attr(o, 'errno', args[0] if len(args) >= 2 else None)
        for k, v in attrs.items():
            self.init_attr(o, k, v)
        return PyExc(o)

    def init_attr(self, o, k, v):
        o.d[k] = v

    def exc_is(self, e, clsname):
        return e.value.cls.issub(self.lib.exception_class(self, clsname))

    # driving -------------------------------------------------------------
    def drive(self, host):
        for _ in host:
            raise Unsupported('yield outside of a generator')

    def set_local(self, fr, name, v):
        if name in fr.globalnames:
            return self.write(fr.module, name, v)
        if name in fr.nonlocalnames:
            e = fr.env
            while e is not None:
                if e.kind in ('func', 'comp') and name in e.localnames:
                    return self.write(e, name, v)
                e = e.env
            raise Unsupported('nonlocal')
        if fr.kind == 'module':
            self.write(fr.module, name, v)
        else:
            self.write(fr, name, v)

    def write(self, obj, key, v):
        if self.pure and obj.serial < self.pure_base:
            raise NotPure()
        if self.path is not None:
            self.path.write(obj, key, v)
        elif v is MISSING:
            obj.d.pop(key, None)
        else:
            obj.d[key] = v

    def lookup(self, fr, name):
        e = fr
        first = True
        while e is not None:
            if e.kind == 'module':
                break
            if e.kind == 'class':
                if first and name in e.d:
                    return e.d[name]
            elif name in e.localnames:
                v = e.d.get(name, MISSING)
                if v is MISSING:
                    raise self.exc('UnboundLocalError', name)
                if v is POISON:
                    raise Unsupported('variable %s may be unbound after a loop' % name)
                return v
            elif name in e.globalnames:
                break
            first = False
            e = e.env
        v = fr.module.d.get(name, MISSING)
        if v is not MISSING:
            return v
        v = self.lib.builtins.get(name, MISSING)
        if v is MISSING:
            if name in HOST_BUILTINS:
                raise Unsupported('builtin %s' % name)
            raise self.exc('NameError', name)
        return v

    # statements ----------------------------------------------------------
    def exec_block(self, stmts, fr):
        for s in stmts:
            yield from self.exec_stmt(s, fr)

    def exec_stmt(self, s, fr):
        fr.node = s
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        r = m(s, fr)
        if r is not None:
            yield from r

    def st_Pass(self, s, fr):
        pass

    def st_Expr(self, s, fr):
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            return self.do_yield(s.value, fr, None)
        self.ev(s.value, fr)

    def do_yield(self, y, fr, then):
        if isinstance(y, ast.Yield):
            v = self.ev(y.value, fr) if y.value else None
            sent = yield v
        else:
            it = self.ev(y.value, fr)
            gen = it
            if not isinstance(gen, (PyGen, GenModel)):
                gen = self.iter_of(it)
            while True:
                try:
                    v = self.next_of(gen)
                except PyExc as e:
                    if self.exc_is(e, 'StopIteration'):
                        a = e.value.d.get('args', ())
                        sent = a[0] if a else None
                        break
                    raise
                yield v
        if then is not None:
            then(sent)

    def st_Return(self, s, fr):
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            def then(v):
                raise ReturnSig(v)
            return self.do_yield(s.value, fr, then)
        raise ReturnSig(self.ev(s.value, fr) if s.value else None)

    def st_Break(self, s, fr):
        raise BreakSig()

    def st_Continue(self, s, fr):
        raise ContinueSig()

    def st_Global(self, s, fr):
        pass

    def st_Nonlocal(self, s, fr):
        pass

    def st_Assign(self, s, fr):
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            def then(v):
                for t in s.targets:
                    self.assign(t, v, fr)
            return self.do_yield(s.value, fr, then)
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def st_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(fr, t.id)
            self.assign(t, self.inplace(s.op, cur, self.ev(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(s.op, cur, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_slice(t.slice, fr)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.inplace(s.op, cur, self.ev(s.value, fr)))
        else:
            raise Unsupported('augmented assignment')

    def inplace(self, op, a, b):
        if isinstance(a, PyList) and isinstance(op, ast.Add):
            self.lib.list_extend(self, a, b)
            return a
        return self.binop(op, a, b)

    def st_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if fr.kind == 'module':
                    self.write(fr.module, t.id, MISSING)
                elif fr.kind == 'class' or t.id in fr.localnames:
                    if t.id not in fr.d:
                        raise self.exc('NameError', t.id)
                    self.write(fr, t.id, MISSING)
                else:
                    raise Unsupported('del of an outer name')
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, fr), t.attr)
            elif isinstance(t, ast.Subscript):
                self.lib.delitem(self, self.ev(t.value, fr), self.ev_slice(t.slice, fr))
            else:
                raise Unsupported('del')

    def st_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            raise self.exc('AssertionError', *([self.ev(s.msg, fr)] if s.msg else []))

    def st_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            return self.exec_block(s.body, fr)
        return self.exec_block(s.orelse, fr)

    def st_Raise(self, s, fr):
        if s.exc is None:
            for f in [fr] + self.stack[::-1]:
                if f.exc:
                    raise PyExc(f.exc[-1])
            raise self.exc('RuntimeError', 'No active exception to reraise')
        v = self.ev(s.exc, fr)
        if isinstance(v, PyClass):
            v = self.call(v, (), {})
        if not isinstance(v, PyObj):
            raise Unsupported('raise of %r' % (v,))
        raise PyExc(v)

    def st_Try(self, s, fr):
        pending = None
        try:
            try:
                yield from self.exec_block(s.body, fr)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None or self.exc_match(e.value, self.ev(h.type, fr)):
                        break
                else:
                    raise
                fr.exc.append(e.value)
                try:
                    if h.name:
                        self.set_local(fr, h.name, e.value)
                    yield from self.exec_block(h.body, fr)
                finally:
                    fr.exc.pop()
                if h.name:
                    self.set_local(fr, h.name, MISSING)
            else:
                yield from self.exec_block(s.orelse, fr)
        except (PyExc, ReturnSig, BreakSig, ContinueSig) as e:
            if not s.finalbody:
                raise
            pending = e
        if isinstance(pending, PyExc):
            fr.exc.append(pending.value)
            try:
                yield from self.exec_block(s.finalbody, fr)
            finally:
                fr.exc.pop()
        else:
            yield from self.exec_block(s.finalbody, fr)
        if pending is not None:
            raise pending

    def exc_match(self, v, t):
        if isinstance(t, tuple):
            return any(self.exc_match(v, x) for x in t)
        if isinstance(t, PyClass):
            self.lib.os_error_refine(self, v, t)
            return v.cls.issub(t)
        if isinstance(t, Ext):
            return any(getattr(c, 'name', None) == t.name.rpartition('.')[2] for c in v.cls.mro)
        raise Unsupported('except %r' % (t,))

    def st_With(self, s, fr, i=0):
        if i == len(s.items):
            yield from self.exec_block(s.body, fr)
            return
        it = s.items[i]
        mgr = self.ev(it.context_expr, fr)
        v = self.enter(mgr)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        try:
            yield from self.st_With(s, fr, i + 1)
        except PyExc as e:
            if not self.truth(self.exit(mgr, e.value)):
                raise
        except (ReturnSig, BreakSig, ContinueSig):
            self.exit(mgr, None)
            raise
        else:
            self.exit(mgr, None)

    def enter(self, mgr):
        return self.call(self.getattr_special(mgr, '__enter__'), (), {})

    def exit(self, mgr, exc):
        a = (None, None, None) if exc is None else (exc.cls, exc, None)
        return self.call(self.getattr_special(mgr, '__exit__'), a, {})

    def getattr_special(self, o, name):
        return self.getattr(o, name)

    def st_Import(self, s, fr):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.set_local(fr, a.asname, m)
            else:
                top = a.name.split('.')[0]
                self.set_local(fr, top, self.import_module(top) if '.' in a.name else m)

    def st_ImportFrom(self, s, fr):
        if s.module == '__future__':
            return
        m = self.import_module(s.module)
        for a in s.names:
            try:
                v = self.getattr(m, a.name)
            except PyExc:
                v = self.import_sub(s.module, a.name)
            self.set_local(fr, a.asname or a.name, v)

    def import_sub(self, mod, name):
        full = mod + '.' + name
        if full == 'profiling.speedup' and self.speedup:
            return self.load_c(full)
        if full.startswith('profiling.'):
            m = self.load(full)
            if m is not None:
                return m
        raise self.exc('ImportError', 'cannot import name %s' % name)

    def st_FunctionDef(self, s, fr):
        v = self.make_func(s, fr, s.name)
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, fr), (v,), {})
        self.set_local(fr, s.name, v)

    def make_func(self, node, fr, name):
        a = node.args
        defaults = tuple(self.ev(d, fr) for d in a.defaults)
        kwd = {x.arg: self.ev(d, fr) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        prefix = ''
        if fr.kind == 'class':
            prefix = fr.extra['qualname'] + '.'
        elif fr.kind in ('func', 'comp') and fr.func is not None:
            prefix = fr.func.qualname + '.<locals>.'
        f = PyFunc(node, name, prefix + name, fr.module, defaults, kwd, fr,
                   False if isinstance(node, ast.Lambda) else has_yield(node))
        f.d['__name__'] = name
        f.d['__doc__'] = None if isinstance(node, ast.Lambda) else ast.get_docstring(node)
        return f

    def st_ClassDef(self, s, fr):
        bases = [self.ev(b, fr) for b in s.bases]
        kw = {k.arg: self.ev(k.value, fr) for k in s.keywords}
        meta = kw.pop('metaclass', None)
        rb = []
        for b in bases:
            if isinstance(b, tuple) and b and b[0] == 'with_metaclass':
                meta = b[1]
                rb.extend(b[2])
            else:
                rb.append(b)
        bases = [self.lib.as_class(self, b) for b in rb]
        cf = Frame(fr.func, fr.module, fr, set(), 'class')
        prefix = fr.extra['qualname'] + '.' if fr.kind == 'class' else ''
        cf.extra = {'qualname': prefix + s.name}
        cf.d['__module__'] = fr.module.name
        cf.d['__qualname__'] = prefix + s.name
        cf.d['__doc__'] = ast.get_docstring(s)
        self.stack.append(cf)
        try:
            self.drive(self.exec_block(s.body, cf))
        finally:
            self.stack.pop()
        if meta is None:
            for b in bases:
                if b.meta is not None:
                    meta = b.meta
        cls = self.make_class(meta, s.name, bases, dict(cf.d), fr.module)
        for d in reversed(s.decorator_list):
            cls = self.call(self.ev(d, fr), (cls,), {})
        self.set_local(fr, s.name, cls)

    def make_class(self, meta, name, bases, ns, module):
        if meta is not None:
            new = meta.lookup('__new__')
            if isinstance(new, (PyFunc, StaticM)):
                f = new.f if isinstance(new, StaticM) else new
                nsd = PyDict(DictC(None, tuple(ns.items())))
                return self.call(f, (meta, name, tuple(bases), nsd), {})
        return self.build_class(meta, name, bases, ns, module)

    def build_class(self, meta, name, bases, ns, module=None):
        if not bases:
            bases = [self.lib.object_class]
        slots = ns.get('__slots__')
        ns = dict(ns)
        if slots is not None:
            if isinstance(slots, str):
                slots = (slots,)
            for x in self.lib.host_iter(self, slots):
                if x in ns:
                    raise self.exc('ValueError', '%r in __slots__ conflicts with class variable' % x)
                ns[x] = SlotDesc(x)
        c = PyClass(name, bases, ns, meta, None, module)
        for v in ns.values():
            f = v
            if isinstance(f, (StaticM, ClassM)):
                f = f.f
            if isinstance(f, PyFunc) and f.cls is None:
                f.cls = c
        mod = ns.get('__module__')
        if isinstance(mod, str):
            self.classes[mod + '.' + name] = c
        return c

    # assignment ----------------------------------------------------------
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.set_local(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev_slice(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                raise Unsupported('starred assignment')
            vals = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, vals):
                self.assign(e, x, fr)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                raise self.exc('ValueError', 'unpack')
            return v
        seq = self.to_seq(v)
        out = []
        for _ in range(n):
            r = self.path.first(seq) if self.path else (seq and (seq[0].v, seq[1:]) or None)
            if r is None:
                raise self.exc('ValueError', 'not enough values to unpack')
            out.append(r[0])
            seq = r[1]
        if self.path and not self.decide(self.path.empty(seq)):
            raise self.exc('ValueError', 'too many values to unpack')
        return out

    # loops ---------------------------------------------------------------
    def decide(self, f):
        if isinstance(f, bool):
            return f
        if self.path is None:
            f = z3.simplify(f)
            if z3.is_true(f) or z3.is_false(f):
                return z3.is_true(f)
            raise Unsupported('symbolic condition while loading')
        return self.path.decide(f)

    def sig(self):
        return tuple((f.serial, f.node.lineno if f.node is not None else 0,
                      f.node.col_offset if f.node is not None else 0) for f in self.stack)

    def st_While(self, s, fr):
        path = self.path
        if path is None:
            while self.truth(self.ev(s.test, fr)):
                try:
                    yield from self.exec_block(s.body, fr)
                except BreakSig:
                    return
                except ContinueSig:
                    pass
            yield from self.exec_block(s.orelse, fr)
            return
        unroll = fr.func is not None and fr.func.qualname in self.unroll or self.unroll_yields and any(
            isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s))
        cut = None
        n = 0
        traced = len(path.trace)
        try:
            while True:
                fr.node = s
                key = (id(s), self.sig())
                before = path.decisions
                if not unroll and key in path.ex.cutnodes and not (n == 0 and self.binds_for_later(s, fr)):
                    cut = self.loop_head(s, fr, key, None)
                n += 1
                if n > 300:
                    raise Unsupported('loop does not end')
                if not self.truth(self.ev(s.test, fr)):
                    break
                try:
                    yield from self.exec_block(s.body, fr)
                except ContinueSig:
                    pass
                if not unroll and cut is None and key not in path.ex.cutnodes and (
                        path.decisions > before or n == 40 and len(path.trace) > traced):
                    path.ex.cutnodes.add(key)
                    raise Restart()
        except BreakSig:
            return
        finally:
            if cut is not None:
                path.active.pop(cut.akey, None)
        yield from self.exec_block(s.orelse, fr)

    def binds_for_later(self, s, fr):
        """whether a loop binds a variable which is read after it and not bound yet; its first iteration is gone through apart then"""
        if fr.func is None:
            return False
        names = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        names = {n for n in names if n in fr.localnames and fr.d.get(n, MISSING) is MISSING}
        return any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in names and x.lineno > s.end_lineno
                   for x in ast.walk(fr.func.node))

    def st_For(self, s, fr):
        it = self.ev(s.iter, fr)
        fr.node = s
        try:
            yield from self.for_each(it, s, fr, lambda v: self.assign(s.target, v, fr), s.body)
        except BreakSig:
            return
        yield from self.exec_block(s.orelse, fr)

    def for_each(self, it, node, fr, bind, body):
        """Run body (a statement list or a host callable) for every element."""
        path = self.path

        def run(v):
            bind(v)
            try:
                if callable(body):
                    body()
                else:
                    yield from self.exec_block(body, fr)
            except ContinueSig:
                pass
        src = self.iter_source(it)
        if src[0] == 'gen':
            gen = src[1]
            while True:
                fr.node = node
                try:
                    v = self.next_of(gen)
                except PyExc as e:
                    if self.exc_is(e, 'StopIteration'):
                        return
                    raise
                yield from run(v)
        if src[0] == 'count':
            obj = src[1]
            cut = None
            n = 0
            try:
                while True:
                    fr.node = node
                    key = (id(node), self.sig())
                    before = path.decisions
                    if key in path.ex.cutnodes:
                        cut = self.loop_head(node, fr, key, None)
                    n += 1
                    if n > 300:
                        raise Unsupported('loop does not end')
                    v = obj.d['n']
                    if len(src) > 2 and not self.decide(self.compare(ast.Lt(), v, src[2])):
                        return
                    self.write(obj, 'n', self.binop(ast.Add(), v, obj.d['step']))
                    yield from run(v)
                    if cut is None and path.decisions > before:
                        path.ex.cutnodes.add(key)
                        raise Restart()
            finally:
                if cut is not None:
                    path.active.pop(cut.akey, None)
        zipped = src[1] if src[0] == 'zip' else None
        if zipped is not None:
            seq, start = zipped.seqs[zipped.main], None
            src = ('seq', seq)
        elif src[0] == 'enum':
            seq, start = src[1], src[2]
        else:
            seq, start = src[1], None
        watch = src[3] if len(src) > 3 else None
        watched = watch.d.get('seq', watch.d.get('c')) if watch is not None else None
        if isinstance(watch, PyList) and path is not None and id(node) in path.ex.growing:
            yield from self.for_growing(watch, start, node, run)
            return
        done = ()

        def changed():
            if isinstance(watch, PyList) and id(node) not in path.ex.growing:
                # iteration by index, which sees the changes
                path.ex.growing.add(id(node))
                raise Restart()
            raise Unsupported('sequence changed while iterating over it')

        def item(v, done):
            if zipped is not None:
                return zipped.item(self, v, done)
            if start is None:
                return v
            return (self.binop(ast.Add(), start, self.lib.num_value(path.length(done)) if path else len(done)), v)
        if path is None:
            for p in seq:
                yield from run(item(p.v, done))
                done += (p,)
            return
        unroll = fr.func is not None and fr.func.qualname in self.unroll
        while True:
            if watch is not None and watch.d.get('seq', watch.d.get('c')) is not watched:
                changed()
            seq = path.norm(seq)
            if not seq:
                return
            p = seq[0]
            fr.node = node
            if isinstance(p, Unit):
                yield from run(item(p.v, done))
                done += (p,)
                seq = seq[1:]
                continue
            if unroll or path.must(path.length((p,)) == 0):
                r = path.first(seq)
                if r is None:
                    return
                yield from run(item(r[0], done))
                done += (Unit(r[0]),)
                seq = r[1]
                continue
            # an abstract part: cut
            key = (id(node), self.sig(), p.base.name, p.key)
            cut = self.loop_head(node, fr, key, (done, p))
            try:
                R_ = cut.rest
                if not path.decide(path.length(R_) > 0):    # the body first: it tells what the loop changes
                    path.bind(R_[0].base, ())
                    done = done + cut.P
                    seq = seq[1:]
                    path.active.pop(cut.akey, None)
                    # the processed part is the whole atom from here on
                    continue
                parts = path.norm(R_)
                if isinstance(parts[0], Var):
                    parts = path.take_apart(parts[0])
                h, rest = parts[0], parts[1:]
                yield from run(item(h.v, done + cut.P))
                if watch is not None and watch.d.get('seq', watch.d.get('c')) is not watched:
                    changed()
                cut.P, cut.rest = path.norm(cut.P + (h,)), rest
                fr.node = node
                if self.sig() != key[1]:
                    raise Unsupported('loop resumed from a different place')
                self.back_edge(cut)
            finally:
                path.active.pop(cut.akey, None)

    def for_growing(self, lst, start, node, run):
        """Iteration over a list which the body changes: by index."""
        path = self.path
        pos = self.lib.Count(0, 1)
        cut = None
        n = 0
        try:
            while True:
                self.stack[-1].node = node
                key = (id(node), self.sig())
                before = path.decisions
                if key in path.ex.cutnodes:
                    cut = self.loop_head(node, self.stack[-1], key, None)
                n += 1
                if n > 300:
                    raise Unsupported('loop does not end')
                i = pos.d['n']
                try:
                    _, v, _ = self.lib.seq_index(self, lst.d['seq'], i)
                except PyExc as e:
                    if self.exc_is(e, 'IndexError'):
                        return
                    raise
                self.write(pos, 'n', self.binop(ast.Add(), i, 1))
                yield from run(v if start is None else (self.binop(ast.Add(), start, i), v))
                if cut is None and path.decisions > before:
                    path.ex.cutnodes.add(key)
                    raise Restart()
        finally:
            if cut is not None:
                path.active.pop(cut.akey, None)

    # cuts ----------------------------------------------------------------
    def get_loc(self, loc):
        return self.world.reg[loc[0]].d.get(loc[1], MISSING)

    def loc_kind(self, loc, v):
        if isinstance(v, tuple) and (loc[1] == 'seq' or isinstance(self.world.reg[loc[0]], Ghost)):
            return ('seq', self.path.seq_kind(self.path.norm(v)))
        if loc[1] == 'c' and isinstance(v, DictC):
            return self.map_kind(v)
        return self.path.kind_of(v)

    def map_kind(self, c):
        path = self.path
        kk, vk = 'bottom', 'bottom'
        if c.base is not None:
            kk, vk = getattr(c.base, 'kinds', ('any', 'any'))
        for k, v, _ in c.items:
            kk = path.join(kk, path.kind_of(k))
            if v is not MISSING:
                vk = path.join(vk, path.kind_of(v))
        return ('map', kk, vk)

    def loop_head(self, node, fr, key, over):
        path = self.path
        akey = key
        cut = path.active.get(akey)
        if cut is not None:
            self.back_edge(cut)
        st = path.ex.loops.setdefault((key, tuple(path.trace)), LoopState())
        cut = Cut()
        cut.akey = akey
        cut.state = st
        cut.node = node
        cut.frame = fr
        cut.serial0 = len(self.world.reg)
        cut.frames = list(self.stack)
        cut.where = self.where()
        cut.entry = {}
        cut.over = over
        cut.P = ()
        cut.done = over[0] if over else ()
        cut.steps0 = None
        cut.phase = 'entry'
        for loc in st.mod:
            cut.entry[loc] = self.get_loc(loc)
        cands = self.collect(cut)
        alive = []
        for name, fn in cands:
            if name in st.dropped:
                continue
            ok = path.scoped(('entry', name), lambda: self.cand_valid(fn))
            if ok:
                alive.append((name, fn))
            else:
                st.dropped.add(name)
                st.why[name] = 'entry'
                self.trace_drop(cut, name, fn, 'entry')
        # havoc
        for loc in sorted(st.mod, key=str):
            obj = self.world.reg[loc[0]]
            k = st.mod[loc]
            label = self.loc_label(loc)
            if k == 'poison':
                v = POISON
            elif isinstance(k, tuple) and k[0] == 'map':
                if 'bottom' in (k[1], k[2]) and k[1] == 'bottom':
                    v = DictC()
                else:
                    m = path.new_map(k[1] if k[1] != 'bottom' else 'any', k[2] if k[2] != 'bottom' else None, label)
                    m.kinds = (k[1], k[2])
                    v = DictC(m)
            elif isinstance(k, tuple) and k[0] == 'seq' and k[1] == 'bottom':
                v = ()
            else:
                v = path.fresh_value(k, label)
            if v is POISON and False:
                pass
            path.write(obj, loc[1], v)
        if over:
            p = over[1]
            b = p.base
            a1 = SeqVar('', path.fresh('P', SeqS), b.elem, None, b.facts)
            a2 = SeqVar('', path.fresh('R', SeqS), b.elem, None, b.facts)
            a1.name, a2.name = str(a1.t), str(a2.t)
            a1.distinct = a2.distinct = b.distinct
            path.bind(b, (Var(a2), Var(a1)) if p.rev else (Var(a1), Var(a2)))
            path.length((Var(a1),)), path.length((Var(a2),))
            for off, fn in b.indexed:
                first, second = (a2, a1) if p.rev else (a1, a2)
                first.indexed += ((off, fn),)
                second.indexed += ((off + path.length((Var(first),)), fn),)
            both = path.norm((p,))
            cut.P, cut.rest = both[:1], both[1:]
        cut.phase = 'head'
        cut.alive = [(name, fn, path.scoped(('assume', name), lambda fn=fn: self.cand_assume(fn))) for name, fn in alive]
        cut.log0 = len(path.log)
        cut.gens = [(g, g.d['steps']) for g in self.world.reg[self.world.base:]
                    if isinstance(g, PyGen) and not g.done]
        path.active[akey] = cut
        if not path.feasible():
            raise PathEnd()
        return cut

    def back_edge(self, cut):
        path = self.path
        st = cut.state
        cut.phase = 'back'
        restart = False
        for loc in set(path.log[cut.log0:]):
            if loc[0] >= cut.serial0:
                continue
            obj = self.world.reg[loc[0]]
            if isinstance(obj, PyGen):
                if any(f is obj.frame for f in self.stack) or any(f is obj.frame for f in cut.frames):
                    continue
                raise Unsupported('a generator is advanced inside a loop')
            cur = self.get_loc(loc)
            if loc in st.mod:
                base = cut.entry.get(loc, MISSING)
                k0 = st.mod[loc]
            else:
                base = None
                for o, k, old in path.journal:
                    pass
                base = self.value_at(loc, cut)
                if base is cur:
                    continue
                k0 = self.loc_kind(loc, base)
            k1 = path.join(k0, self.loc_kind(loc, cur))
            if loc not in st.mod or k1 != st.mod[loc]:
                st.mod[loc] = k1
                restart = True
        if restart:
            path.ex.nmods = getattr(path.ex, 'nmods', 0) + 1
            if path.ex.nmods > 200:
                raise Unsupported('loop summary does not stabilise')
            raise Restart()
        failed = []
        for name, fn, used in cut.alive:
            if name in st.dropped:
                restart = True
                continue
            if not path.scoped(('back', name), lambda: self.cand_valid(fn)):
                failed.append((name, fn, used))
        if any(f[2] for f in failed):
            # those whose assumption could not be used get another chance
            failed = [f for f in failed if f[2]]
        for name, fn, used in failed:
            st.dropped.add(name)
            st.why[name] = 'preserve'
            self.trace_drop(cut, name, fn, 'preserve')
            restart = True
        if restart:
            raise Restart()
        for name, fn, used in cut.alive:
            path.ex.inv[(cut.where, name)] = path.ex.inv.get((cut.where, name), 0) + 1
        # a decreasing measure, if the contract asks for one
        raise PathEnd()

    def value_at(self, loc, cut):
        """The value a location had at the head (before the first later write)."""
        path = self.path
        n = 0
        for (obj, key, old), l in zip(path.journal, path.log):
            if n >= cut.log0 and l == loc:
                return old
            n += 1
        return self.get_loc(loc)

    def loc_label(self, loc):
        obj = self.world.reg[loc[0]]
        if isinstance(obj, Frame):
            return str(loc[1])
        if isinstance(obj, PyList):
            return 'list'
        return '%s' % (loc[1],)

    def trace_drop(self, cut, name, fn, why):
        if not os.environ.get('PYV_DEBUG') or os.environ['PYV_DEBUG'] not in '1' + name:
            return
        print('DROP', why, cut.where, name)
        pure, self.pure = self.pure, True
        pb, self.pure_base = self.pure_base, len(self.world.reg)
        try:
            ts = self.cand_terms(fn)
            for t in ts or []:
                if isinstance(t, tuple) and t[0] == 'indexed':
                    t = self.path.check_indexed(t[1], t[2])
                if isinstance(t, tuple):
                    print('    ', self.path.norm(t[1]), '==', self.path.norm(t[2]))
                    t = zb(self.path.seq_eq(t[1], t[2]))
                print('    ', t)
                self.path.solver.push()
                self.path.solver.add(z3.Not(zb(t)))
                if self.path.solver.check() == z3.sat:
                    print('    model', str(self.path.solver.model()).replace('\n', ' ')[:1500])
                self.path.solver.pop()
        finally:
            self.pure, self.pure_base = pure, pb

    def collect(self, cut):
        if self.candidates is None:
            return []
        return list(self.candidates(LoopView(self, cut)))

    def cand_terms(self, fn):
        try:
            r = fn()
        except NA:
            return None
        except NotPure:
            return None
        if r is None:
            return None
        if not isinstance(r, list):
            r = [r]
        return r

    def cand_valid(self, fn):
        path = self.path
        pure, self.pure = self.pure, True
        pb = getattr(self, 'pure_base', 0)
        self.pure_base = len(self.world.reg)
        try:
            ts = self.cand_terms(fn)
            if ts is None:
                return False
            for t in ts:
                if isinstance(t, tuple) and t[0] == 'seqeq':
                    t = path.seq_eq(t[1], t[2])
                elif isinstance(t, tuple) and t[0] == 'indexed':
                    t = path.check_indexed(t[1], t[2])
                elif isinstance(t, tuple) and t[0] == 'mapval':
                    t = self.check_mapval(t[1], t[2])
                elif isinstance(t, tuple) and t[0] == 'mapis':
                    t = self.check_mapis(t[1], t[2], t[3])
                if not path.valid(t):
                    return False
            return True
        finally:
            self.pure = pure
            self.pure_base = pb

    def check_mapval(self, c, fn):
        """Every value of the dictionary is fn(its key)."""
        if c.base is not None and c.base.mapval is not fn:
            return False
        return z3.And([z3.BoolVal(True)] + [zb(self.lib.term(self, self.lib.eq_value(self, v, fn(k))))
                                            for k, v, _ in c.items if v is not MISSING])

    def check_mapis(self, c, has, val):
        """The dictionary has exactly the keys of which has is true, and val(k) at each key k."""
        path = self.path
        u = path.fresh('key', engine.U)
        k = path.from_u('any', u)
        here, v = z3.BoolVal(False), None
        if c.base is not None:
            here, v = zb(c.base.present(k)), path.to_u(c.base.value(k))
        for kk, x, _ in c.items:
            is_it = path.to_u(kk) == u
            here = z3.If(is_it, z3.BoolVal(x is not MISSING), here)
            if x is not MISSING:
                v = path.to_u(x) if v is None else z3.If(is_it, path.to_u(x), v)
        t = here == zb(has(k))
        if v is not None:
            t = z3.And(t, z3.Implies(here, v == path.to_u(val(k))))
        return t

    def cand_assume(self, fn):
        path = self.path
        pure, self.pure = self.pure, True
        pb = getattr(self, 'pure_base', 0)
        self.pure_base = len(self.world.reg)
        try:
            ts = self.cand_terms(fn)
            if ts is None:
                return False
            used = True
            for t in ts:
                if isinstance(t, tuple) and t[0] == 'seqeq':
                    used = path.assume_seq_eq(t[1], t[2]) and used
                elif isinstance(t, tuple) and t[0] == 'indexed':
                    path.assume_indexed(t[1], t[2])
                elif isinstance(t, tuple) and t[0] == 'mapval':
                    if t[1].base is not None:
                        t[1].base.value = t[1].base.mapval = t[2]
                elif isinstance(t, tuple) and t[0] == 'mapis':
                    if t[1].base is not None:
                        t[1].base.present, t[1].base.value = t[2], t[3]
                else:
                    path.assume(t)
            return used
        finally:
            self.pure = pure
            self.pure_base = pb

    # iteration -----------------------------------------------------------
    def iter_source(self, it):
        """('seq', Seq) | ('gen', gen) | ('count', obj) | ('enum', Seq, start)"""
        if isinstance(it, (PyGen, GenModel)):
            return ('gen', it)
        if isinstance(it, tuple):
            return ('seq', seq_units(it))
        if isinstance(it, SeqVal):
            return ('seq', it.seq)
        if isinstance(it, PyList):
            return ('seq', it.d['seq'], None, it)
        if isinstance(it, str):
            return ('seq', seq_units(it))
        if isinstance(it, range):
            return ('seq', seq_units(it))
        if isinstance(it, IterObj):
            s = it.d['seq']
            self.write(it, 'seq', ())
            return ('seq', s)
        if isinstance(it, (PyDict, PySet)):
            return ('seq', self.lib.dict_keys(self, it.d['c']), None, it)
        if isinstance(it, self.lib.Count):
            return ('count', it)
        if isinstance(it, self.lib.SymRange):
            return ('count', self.lib.Count(it.start, 1), it.stop)
        if isinstance(it, self.lib.ZipV):
            return ('zip', it)
        if isinstance(it, self.lib.EnumV):
            src = self.iter_source(it.it)
            if src[0] != 'seq':
                raise Unsupported('enumerate of a generator')
            return ('enum', src[1], it.start) + tuple(src[3:])
        if isinstance(it, (PyObj, AbsRef)):
            r = self.call(self.getattr_type(it, '__iter__'), (), {})
            return self.iter_source(r)
        if isinstance(it, self.lib.DictView):
            return self.lib.view_source(self, it)
        if isinstance(it, Opt):
            return self.iter_source(self.force(it))
        if isinstance(it, dict) or isinstance(it, list):
            return ('seq', seq_units(list(it)))
        h = getattr(it, 'pyv_iter', None)
        if h is not None:
            return h(self)
        if it is None or isinstance(it, (int, float)) or isinstance(it, SV):
            if isinstance(it, SV) and it.kind not in ('int', 'real', 'bool'):
                raise Unsupported('iteration over %r' % (it,))
            raise self.exc('TypeError', 'not iterable')
        raise Unsupported('iteration over %r' % (it,))

    def to_seq(self, v):
        """The elements of an iterable as a Seq (consumes iterators)."""
        src = self.iter_source(v)
        if src[0] == 'seq':
            return src[1]
        if src[0] == 'enum':
            if self.path is not None and any(isinstance(p, Var) for p in self.path.norm(src[1])):
                raise Unsupported('enumerate of an abstract sequence as a list')
            ps = src[1] if self.path is None else self.path.norm(src[1])
            return tuple(Unit((self.binop(ast.Add(), src[2], i), p.v)) for i, p in enumerate(ps))
        if src[0] in ('gen', 'zip'):
            tmp = PyList((), 'list')
            fr = self.stack[-1]
            node = fr.node
            self.drive(self.for_each(v, node, fr, lambda x: self.write(tmp, 'seq', tmp.d['seq'] + (Unit(x),)), lambda: None))
            return tmp.d['seq']
        raise Unsupported('infinite iterable as a list')

    def iter_of(self, v):
        if isinstance(v, (PyGen, GenModel, IterObj, self.lib.Count)):
            return v
        src = self.iter_source(v)
        if src[0] == 'seq':
            return IterObj(src[1])
        if src[0] in ('enum', 'zip'):
            return IterObj(self.to_seq(v))
        return src[1]

    def next_of(self, g, default=MISSING):
        if isinstance(g, PyGen):
            return self.resume(g, None)
        if isinstance(g, GenModel):
            return g.resume(self.path, 'next', None)
        if isinstance(g, IterObj):
            s = g.d['seq']
            r = self.path.first(s) if self.path is not None else ((s[0].v, s[1:]) if s else None)
            if r is None:
                raise self.exc('StopIteration')
            self.write(g, 'seq', r[1])
            return r[0]
        if isinstance(g, self.lib.Count):
            v = g.d['n']
            self.write(g, 'n', self.binop(ast.Add(), v, g.d['step']))
            return v
        if isinstance(g, (PyObj, AbsRef)):
            return self.call(self.getattr_type(g, '__next__'), (), {})
        if g is None:
            raise self.exc('TypeError', 'not an iterator')
        raise Unsupported('next() of %r' % (g,))

    def resume(self, g, exc):
        if g.done:
            if exc is not None:
                raise PyExc(exc)
            raise self.exc('StopIteration')
        if self.path is not None:
            self.write(g, 'steps', g.d['steps'] + 1)
        if any(f is g.frame for f in self.stack):
            raise self.exc('ValueError', 'generator already executing')
        self.stack.append(g.frame)
        try:
            if exc is None:
                g.started = True
                return next(g.host)
            if not g.started:
                g.done = True
                raise PyExc(exc)
            return g.host.throw(PyExc(exc))
        except StopIteration:
            g.done = True
            raise self.exc('StopIteration')
        except ReturnSig as r:
            g.done = True
            raise self.exc('StopIteration', *([r.v] if r.v is not None else []))
        except PyExc as e:
            g.done = True
            if self.exc_is(e, 'StopIteration'):
                raise self.exc('RuntimeError', 'generator raised StopIteration')
            raise
        finally:
            self.stack.pop()

    # calls ---------------------------------------------------------------
    def call(self, f, args, kwargs):
        if isinstance(f, PyFunc):
            return self.call_func(f, tuple(args), kwargs)
        if isinstance(f, BoundMethod):
            return self.call(f.func, (f.self,) + tuple(args), kwargs)
        if isinstance(f, Builtin):
            return f.fn(self, tuple(args), kwargs)
        if isinstance(f, PyClass):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, PartialV):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.func, f.args + tuple(args), kw)
        if isinstance(f, Ext):
            return self.lib.call_ext(self, f, tuple(args), kwargs)
        if isinstance(f, PyObj):
            m = f.cls.lookup('__call__')
            if m is MISSING:
                raise self.exc('TypeError', 'not callable')
            return self.call(self.bind_attr(m, f, f.cls), args, kwargs)
        if isinstance(f, AbsRef):
            h = f.kind.call(self, f, tuple(args), kwargs)
            if h is not NotImplemented:
                return h
            m = self.getattr_type(f, '__call__')
            return self.call(m, args, kwargs)
        if isinstance(f, Opt):
            return self.call(self.force(f), args, kwargs)
        if isinstance(f, StaticM):
            return self.call(f.f, args, kwargs)
        if f is None:
            raise self.exc('TypeError', 'NoneType is not callable')
        raise Unsupported('call of %r' % (f,))

    def qual(self, f):
        return '%s:%s' % (f.module.name, f.qualname)

    def call_func(self, f, args, kwargs):
        if not self.loading:
            q = self.qual(f)
            if q in self.models and q not in self.skip_model:
                if self.pure and not getattr(self.models[q], 'pure', False):
                    raise NotPure()
                self.used[q] = 'contract'
                return self.models[q](self.path, args, kwargs)
            if q in self.skip_model:
                self.skip_model.discard(q)
                self.used.setdefault(q, 'verified')
            else:
                self.used.setdefault(q, 'inlined')
        self.calldepth += 1
        if self.calldepth > 80:
            self.calldepth = 0
            raise Unsupported('recursion too deep in %s' % f.qualname)
        try:
            return self.call_body(f, args, kwargs)
        finally:
            self.calldepth -= 1

    def call_body(self, f, args, kwargs):
        names = f.d.get('#locals')
        if names is None:
            names = f.d['#locals'] = local_names(f.node)
        fr = Frame(f, f.module, f.env, names[0])
        fr.globalnames, fr.nonlocalnames = names[1], names[2]
        self.bind_args(f, fr, args, kwargs)
        fr.node = f.node
        if f.is_gen:
            g = PyGen(self.exec_block(f.node.body, fr), fr, f.qualname)
            return g
        self.stack.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            self.drive(self.exec_block(f.node.body, fr))
        except ReturnSig as r:
            return r.v
        finally:
            self.stack.pop()
        return None

    def bind_args(self, f, fr, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        d = fr.d
        kwargs = dict(kwargs)
        n = len(pos)
        for name, v in zip(pos, args):
            d[name] = v
        if any(isinstance(x, StarArgs) for x in args):
            i = [isinstance(x, StarArgs) for x in args].index(True)
            if i != n or len(args) != n + 1 or a.vararg is None:
                raise Unsupported('abstract argument list bound to parameters')
            d[a.vararg.arg] = args[n].v
        elif len(args) > n:
            if a.vararg is None:
                raise self.exc('TypeError', '%s() takes %d positional arguments' % (f.name, n))
            d[a.vararg.arg] = tuple(args[n:])
        elif a.vararg is not None:
            d[a.vararg.arg] = ()
        off = n - len(f.defaults)
        for i, name in enumerate(pos):
            if name in d and i < len(args):
                if name in kwargs:
                    raise self.exc('TypeError', 'multiple values for %s' % name)
                continue
            if name in kwargs:
                d[name] = kwargs.pop(name)
            elif i >= off:
                d[name] = f.defaults[i - off]
            else:
                raise self.exc('TypeError', '%s() missing argument %s' % (f.name, name))
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                d[x.arg] = kwargs.pop(x.arg)
            elif x.arg in f.kwdefaults:
                d[x.arg] = f.kwdefaults[x.arg]
            else:
                raise self.exc('TypeError', 'missing keyword')
        if a.kwarg is not None and set(kwargs) == {'**'}:
            d[a.kwarg.arg] = kwargs['**']
        elif a.kwarg is not None:
            d[a.kwarg.arg] = PyDict(DictC(None, tuple(kwargs.items())))
        elif kwargs:
            raise self.exc('TypeError', '%s() got an unexpected keyword %s' % (f.name, sorted(kwargs)))

    def instantiate(self, c, args, kwargs):
        if c.construct is not None:
            return c.construct(self, c, tuple(args), kwargs)
        h = self.cls_hooks.get(c) if self.path is not None else None
        if h is not None:
            if self.pure and not getattr(h, 'pure', False):
                raise NotPure()
            return h(self, c, tuple(args), kwargs)
        if c.meta is not None:
            m = c.meta.lookup('__call__')
            if m is not MISSING:
                return self.call(self.bind_attr(m, c, c.meta), args, kwargs)
        return self.type_call(c, args, kwargs)

    def type_call(self, c, args, kwargs):
        new = c.lookup('__new__')
        if isinstance(new, StaticM):
            new = new.f
        if new is MISSING:
            o = self.alloc(c)
        else:
            o = self.call(new, (c,) + tuple(args), kwargs)
        if isinstance(o, (PyObj, AbsRef)) and self.type_of(o).issub(c):
            init = self.type_of(o).lookup('__init__')
            if init is not MISSING:
                self.call(self.bind_attr(init, o, self.type_of(o)), args, kwargs)
            elif c.opaque:
                f = self.lib.class_attr(self, self.type_of(o), '__init__')
                if f is not NotImplemented:
                    self.call(f, (o,) + tuple(args), kwargs)
            elif args or kwargs:
                if new is MISSING:
                    raise self.exc('TypeError', '%s() takes no arguments' % c.name)
        return o

    def alloc(self, c):
        h = self.alloc_hooks.get(c) if self.path is not None and getattr(self, 'alloc_hooks', None) else None
        if h is not None:
            if self.pure:
                raise NotPure()
            return h(c)
        if c.opaque and c.host is None:
            pass
        return PyObj(c)

    # attributes ----------------------------------------------------------
    def type_of(self, o):
        L = self.lib
        if isinstance(o, PyObj):
            return o.cls
        if isinstance(o, AbsRef):
            c = o.kind.pyclass(self, o)
            if c is not None:
                return c
            raise Unsupported('type of %r' % (o,))
        if isinstance(o, PyClass):
            return o.meta or L.type_class
        return L.type_of(self, o)

    def getattr_type(self, o, name):
        """Special method lookup."""
        if isinstance(o, AbsRef):
            v = o.kind.getattr(self, o, name)
            if v is not NotImplemented:
                return v
        c = self.type_of(o)
        v = c.lookup(name)
        if v is MISSING:
            raise self.exc('TypeError', 'no %s' % name)
        return self.bind_attr(v, o, c)

    def has_special(self, o, name):
        if isinstance(o, AbsRef):
            if o.kind.getattr(self, o, name) is not NotImplemented:
                return True
            c = o.kind.pyclass(self, o)
            return c is not None and c.lookup(name) is not MISSING
        return isinstance(o, PyObj) and o.cls.lookup(name) is not MISSING

    def bind_attr(self, v, o, c):
        """Descriptor protocol for a class attribute found on instance o."""
        if isinstance(v, (PyFunc, Builtin)):
            if isinstance(v, Builtin) and v.attrs.get('static'):
                return v
            return BoundMethod(v, o)
        if isinstance(v, PropertyV):
            if v.fget is None:
                raise self.exc('AttributeError', 'unreadable')
            return self.call(v.fget, (o,), {})
        if isinstance(v, ClassM):
            return BoundMethod(v.f, c)
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, SlotDesc):
            x = o.d.get(v.name, MISSING)
            if x is MISSING:
                raise self.exc('AttributeError', v.name)
            return x
        if isinstance(v, PyObj):
            g = v.cls.lookup('__get__')
            if g is not MISSING:
                return self.call(self.bind_attr(g, v, v.cls), (o, c), {})
        return v

    def getattr(self, o, name, default=MISSING):
        try:
            return self._getattr(o, name)
        except PyExc as e:
            if self.exc_is(e, 'AttributeError'):
                if isinstance(o, PyObj):
                    ga = o.cls.lookup('__getattr__')
                    if ga is not MISSING:
                        return self.call(self.bind_attr(ga, o, o.cls), (name,), {})
                if default is not MISSING:
                    return default
            raise

    def _getattr(self, o, name):
        if isinstance(o, PyObj):
            v = o.cls.lookup(name)
            if isinstance(v, (PropertyV, SlotDesc)):
                return self.bind_attr(v, o, o.cls)
            if name in o.d:
                x = o.d[name]
                if x is POISON:
                    raise Unsupported('attribute %s may be unset after a loop' % name)
                return x
            if v is not MISSING:
                return self.bind_attr(v, o, o.cls)
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return self.lib.instance_dict(self, o)
            if o.cls.opaque:
                r = self.lib.opaque_attr(self, o, name)
                if r is not NotImplemented:
                    return r
            raise self.exc('AttributeError', '%s has no attribute %s' % (o.cls.name, name))
        if isinstance(o, AbsRef):
            v = o.kind.getattr(self, o, name)
            if v is not NotImplemented:
                return v
            c = o.kind.pyclass(self, o)
            if c is not None:
                if name == '__class__':
                    return c
                v = c.lookup(name)
                if v is not MISSING:
                    return self.bind_attr(v, o, c)
            raise Unsupported('attribute %s of an abstract %s' % (name, o.kind.name))
        if isinstance(o, PyClass):
            m = o.meta
            if m is not None:
                mv = m.lookup(name)
                if isinstance(mv, PropertyV):
                    return self.bind_attr(mv, o, m)
            v = o.lookup(name)
            if v is not MISSING:
                if isinstance(v, ClassM):
                    return BoundMethod(v.f, o)
                if isinstance(v, StaticM):
                    return v.f
                if isinstance(v, PyObj) and v.cls.lookup('__get__') is not MISSING:
                    g = v.cls.lookup('__get__')
                    return self.call(self.bind_attr(g, v, v.cls), (None, o), {})
                return v
            if name == '__name__':
                return o.name
            if name == '__mro__':
                return tuple(o.mro)
            if name == '__bases__':
                return o.bases
            if name == '__dict__':
                return PyDict(DictC(None, tuple((k, x) for k, x in o.d.items())))
            if name == '__class__':
                return m or self.lib.type_class
            if m is not None:
                v = m.lookup(name)
                if v is not MISSING:
                    return self.bind_attr(v, o, m)
            if o.opaque or o.host is not None:
                r = self.lib.class_attr(self, o, name)
                if r is not NotImplemented:
                    return r
            raise self.exc('AttributeError', 'type object %s has no attribute %s' % (o.name, name))
        if isinstance(o, PyModule):
            v = o.d.get(name, MISSING)
            if v is not MISSING:
                return v
            if name == '__dict__':
                return PyDict(DictC(None, tuple(o.d.items())))
            full = o.name + '.' + name
            if o.name.startswith('profiling') and full in self.modules:
                return self.modules[full]
            raise self.exc('AttributeError', 'module %s has no attribute %s' % (o.name, name))
        if isinstance(o, SuperObj):
            return self.super_attr(o, name)
        if isinstance(o, BoundMethod):
            if name == '__self__':
                return o.self
            if name == '__func__':
                return o.func
            return self.getattr(o.func, name)
        if isinstance(o, PyFunc):
            if name in o.d:
                return o.d[name]
            if name == '__qualname__':
                return o.qualname
            if name == '__module__':
                return o.module.name
            if name == '__get__':
                return Builtin('__get__', lambda I, a, k: BoundMethod(o, a[0]) if a[0] is not None else o)
            raise self.exc('AttributeError', name)
        if isinstance(o, Opt):
            return self._getattr(self.force(o), name)
        if isinstance(o, StaticM) and name == '__func__':
            return o.f
        return self.lib.host_getattr(self, o, name)

    def super_attr(self, so, name):
        o = so.obj
        c = o if isinstance(o, PyClass) else self.type_of(o)
        if isinstance(o, PyClass) and not o.issub(so.cls):
            c = self.type_of(o)
        mro = c.mro
        i = mro.index(so.cls)
        for b in mro[i + 1:]:
            if name in b.d:
                v = b.d[name]
                if name == '__new__':
                    return v.f if isinstance(v, StaticM) else v
                if isinstance(o, PyClass) and c is o:
                    if isinstance(v, ClassM):
                        return BoundMethod(v.f, o)
                    return v.f if isinstance(v, StaticM) else v
                return self.bind_attr(v, o, c)
        r = self.lib.super_builtin(self, so, c, name)
        if r is NotImplemented:
            raise self.exc('AttributeError', 'super object has no attribute %s' % name)
        return r

    def setattr(self, o, name, v):
        if isinstance(o, PyObj):
            c = o.cls.lookup(name)
            if isinstance(c, PropertyV):
                if c.fset is None:
                    raise self.exc('AttributeError', "can't set attribute")
                self.call(c.fset, (o, v), {})
                return
            h = o.cls.lookup('__setattr__')
            if isinstance(h, PyFunc):
                self.call(h, (o, name, v), {})
                return
            if o.cls.lookup('__slots__') is not MISSING and not isinstance(c, SlotDesc) and self.slots_only(o.cls):
                raise self.exc('AttributeError', '%s has no attribute %s' % (o.cls.name, name))
            self.write(o, name, v)
            return
        if isinstance(o, AbsRef):
            r = o.kind.setattr(self, o, name, v)
            if r is NotImplemented:
                c = o.kind.pyclass(self, o)
                p = c.lookup(name) if c is not None else MISSING
                if isinstance(p, PropertyV) and p.fset is not None:
                    self.call(p.fset, (o, v), {})
                    return
                raise Unsupported('store to attribute %s of an abstract %s' % (name, o.kind.name))
            return
        if isinstance(o, (PyClass, PyModule, PyFunc)):
            self.write(o, name, v)
            return
        if isinstance(o, Opt):
            return self.setattr(self.force(o), name, v)
        if isinstance(o, Builtin):
            o.attrs[name] = v
            return
        if isinstance(o, Ext):
            return self.lib.ext_setattr(self, o, name, v)
        if o is None or isinstance(o, (int, float, str, tuple)):
            raise self.exc('AttributeError', name)
        raise Unsupported('store to attribute %s of %r' % (name, o))

    def slots_only(self, c):
        return all('__slots__' in k.d or k is self.lib.object_class for k in c.mro)

    def delattr(self, o, name):
        if isinstance(o, PyObj):
            if name in o.d:
                self.write(o, name, MISSING)
                return
            raise self.exc('AttributeError', name)
        if isinstance(o, (PyClass, PyModule)):
            if name in o.d:
                self.write(o, name, MISSING)
                return
            raise self.exc('AttributeError', name)
        raise Unsupported('del attribute of %r' % (o,))

    # truth, force ---------------------------------------------------------
    def force(self, v):
        while isinstance(v, Opt):
            v = None if self.decide(v.cond) else v.val
        return v

    def truth_term(self, v):
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str, bytes, tuple, range)):
            return bool(v)
        if isinstance(v, SV):
            if v.kind == 'bool':
                return v.t
            if v.kind in ('int', 'real'):
                return v.t != 0
            if v.kind in ('str', 'bytes'):
                return v.t != self.path.to_u('' if v.kind == 'str' else b'')
            t, to_u = v.t, self.path.to_u
            return z3.And(t != U.none, t != U.nil, z3.Implies(U.is_bool(t), U.ub(t)), z3.Implies(U.is_int(t), U.ui(t) != 0),
                          z3.Implies(U.is_real(t), U.ur(t) != 0), t != to_u(''), t != to_u(b''),
                          z3.Implies(U.is_ref(t), uf('truth of', U, B)(t)))
        if isinstance(v, Opt):
            t = self.truth_term(v.val)
            return z3.And(z3.Not(v.cond), zb(t))
        if isinstance(v, SeqVal):
            e = self.path.empty(v.seq)
            return (not e) if isinstance(e, bool) else z3.Not(e)
        if isinstance(v, PyList):
            if self.path is None:
                return bool(v.d['seq'])
            e = self.path.empty(v.d['seq'])
            return (not e) if isinstance(e, bool) else z3.Not(e)
        if isinstance(v, (PyDict, PySet)):
            return self.lib.dict_truth(self, v.d['c'])
        if isinstance(v, AbsRef):
            r = v.kind.truth(self, v)
            r = r.t if isinstance(r, SV) else r
            if r is not NotImplemented:
                return r
            for m in ('__bool__', '__len__'):
                if self.has_special(v, m):
                    return self.truth_term(self.call(self.getattr_type(v, m), (), {}))
            return True
        if isinstance(v, PyObj):
            for m in ('__bool__', '__len__'):
                if v.cls.lookup(m) is not MISSING:
                    return self.truth_term(self.call(self.getattr_type(v, m), (), {}))
            return True
        if isinstance(v, SStr):
            if any(isinstance(p, str) and p for p in v.parts):
                return True
            ts = []
            for p in v.parts:
                if isinstance(p, SV) and p.kind == 'str':
                    ts.append(zb(self.truth_term(p)))
                else:
                    return True
            return z3.Or(ts) if ts else False
        if isinstance(v, self.lib.DictView):
            return self.lib.dict_truth(self, v.d.d['c'])
        return True

    def truth(self, v):
        return self.decide(self.truth_term(v))

    # expressions -----------------------------------------------------------
    def ev(self, n, fr):
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n, fr)

    def ev_Constant(self, n, fr):
        return n.value

    def ev_Name(self, n, fr):
        return self.lookup(fr, n.id)

    def ev_Attribute(self, n, fr):
        return self.getattr(self.ev(n.value, fr), n.attr)

    def ev_Tuple(self, n, fr):
        out = ()
        for e in n.elts:
            if isinstance(e, ast.Starred):
                s = self.to_seq(self.ev(e.value, fr))
                s = self.path.norm(s) if self.path else s
                if any(isinstance(p, Var) for p in s):
                    raise Unsupported('starred abstract sequence')
                out += tuple(p.v for p in s)
            else:
                out += (self.ev(e, fr),)
        return out

    def ev_List(self, n, fr):
        out = ()
        for e in n.elts:
            if isinstance(e, ast.Starred):
                out += tuple(self.to_seq(self.ev(e.value, fr)))
            else:
                out += (Unit(self.ev(e, fr)),)
        return PyList(out)

    def ev_Set(self, n, fr):
        s = PySet()
        for e in n.elts:
            self.lib.dict_set(self, s, self.ev(e, fr), True)
        return s

    def ev_Dict(self, n, fr):
        d = PyDict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.lib.dict_update(self, d, self.ev(v, fr))
            else:
                kk = self.ev(k, fr)
                self.lib.dict_set(self, d, kk, self.ev(v, fr))
        return d

    def ev_Lambda(self, n, fr):
        return self.make_func(n, fr, '<lambda>')

    def ev_IfExp(self, n, fr):
        return self.ev(n.body if self.truth(self.ev(n.test, fr)) else n.orelse, fr)

    def ev_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        f = fr
        while f.kind == 'comp':
            f = f.env
        self.set_local(f, n.target.id, v)
        return v

    def ev_BoolOp(self, n, fr):
        is_and = isinstance(n.op, ast.And)
        for e in n.values[:-1]:
            v = self.ev(e, fr)
            t = self.truth_term(v)
            if self.decide(t) != is_and:
                # the value itself is the result; a known-falsy optional is None
                if isinstance(v, Opt):
                    v = self.force(v)
                return v
            if isinstance(v, Opt) and is_and:
                pass
        v = self.ev(n.values[-1], fr)
        return v

    def ev_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            t = self.truth_term(v)
            return (not t) if isinstance(t, bool) else SV('bool', z3.Not(t))
        v = self.force(v)
        if isinstance(n.op, ast.Invert):
            if isinstance(v, PyObj):
                return self.call(self.getattr_type(v, '__invert__'), (), {})
            if isinstance(v, int):
                return ~v
            raise Unsupported('~')
        if isinstance(v, (bool, int, float)):
            return -v if isinstance(n.op, ast.USub) else +v
        if isinstance(v, SV) and v.kind in ('int', 'real', 'bool'):
            t = self.path.num(v)
            k = 'int' if v.kind == 'bool' else v.kind
            return SV(k, -t) if isinstance(n.op, ast.USub) else SV(k, t)
        if v is None or isinstance(v, (str, tuple, PyObj, AbsRef, PyList, PyDict)):
            raise self.exc('TypeError', 'bad operand')
        raise Unsupported('unary operator on %r' % (v,))

    def ev_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        return self.binop(n.op, a, self.ev(n.right, fr))

    def binop(self, op, a, b):
        return self.lib.binop(self, op, a, b)

    def ev_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        terms = []
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, fr)
            t = self.compare(op, left, right)
            if isinstance(t, SV):
                t = t.t
            if t is False:
                return False
            if len(n.ops) > 1 and t is not True:
                terms.append(t)
            elif t is not True:
                return SV('bool', t)
            left = right
        if not terms:
            return True
        return SV('bool', z3.And(terms))

    def compare(self, op, a, b):
        return self.lib.compare(self, op, a, b)

    def ev_Call(self, n, fr):
        f = self.ev(n.func, fr)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.force(self.ev(a.value, fr))
                if isinstance(v, (AbsRef, StarArgs)) and self.symbolic_args(v):
                    # an argument list that is not looked into
                    args.append(v if isinstance(v, StarArgs) else StarArgs(v))
                    continue
                s = self.to_seq(v)
                s = self.path.norm(s) if self.path else s
                if any(isinstance(p, Var) for p in s):
                    raise Unsupported('starred abstract arguments')
                args.extend(p.v for p in s)
            else:
                args.append(self.ev(a, fr))
        for k in n.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if isinstance(v, AbsRef) and self.symbolic_args(v):
                    kwargs['**'] = v
                    continue
                if isinstance(v, PyDict):
                    sv = [vv for kk, vv, _ in v.d['c'].items if kk == '**'] if v.d['c'].base is None else []
                    if sv:
                        kwargs['**'] = sv[0]
                        continue
                for kk, vv in self.lib.host_items(self, v):
                    if kk in kwargs:
                        raise self.exc('TypeError', 'multiple values for keyword %s' % kk)
                    kwargs[kk] = vv
            else:
                if k.arg in kwargs:
                    raise self.exc('TypeError', 'multiple values for keyword %s' % k.arg)
                kwargs[k.arg] = v
        old = fr.node
        if f is self.lib.builtins['super'] and not args:
            return self.zero_super(fr)
        if f is self.lib.builtins['locals']:
            return self.lib.NsDict(fr)
        if f is self.lib.builtins['globals']:
            return self.lib.NsDict(fr.module)
        fr.node = n
        try:
            return self.call(f, args, kwargs)
        finally:
            fr.node = old

    def symbolic_args(self, v):
        return isinstance(v, StarArgs) or getattr(v.kind, 'args', False)

    def zero_super(self, fr):
        f = fr
        while f.func is None or f.kind == 'comp':
            f = f.env
        first = f.func.node.args.args[0].arg
        return SuperObj(f.func.cls, f.d[first])

    def ev_slice(self, n, fr):
        if isinstance(n, ast.Slice):
            return slice(self.ev(n.lower, fr) if n.lower else None,
                         self.ev(n.upper, fr) if n.upper else None,
                         self.ev(n.step, fr) if n.step else None)
        return self.ev(n, fr)

    def ev_Subscript(self, n, fr):
        return self.getitem(self.ev(n.value, fr), self.ev_slice(n.slice, fr))

    def getitem(self, o, k):
        return self.lib.getitem(self, o, k)

    def setitem(self, o, k, v):
        return self.lib.setitem(self, o, k, v)

    def ev_JoinedStr(self, n, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                spec = self.ev(v.format_spec, fr) if v.format_spec else ''
                x = self.ev(v.value, fr)
                if v.conversion == 114:
                    x = self.lib.py_repr(self, x)
                elif v.conversion == 115:
                    x = self.lib.py_str(self, x)
                parts.append(self.lib.format_value(self, x, spec))
        return self.lib.concat_str(parts)

    def comp(self, n, fr, emit):
        names = local_names(n)
        cf = Frame(fr.func, fr.module, fr, names[0], 'comp')
        gens = n.generators

        def level(i, src):
            g = gens[i]

            def body():
                for c in g.ifs:
                    if not self.truth(self.ev(c, cf)):
                        return
                if i + 1 == len(gens):
                    emit(cf)
                else:
                    level(i + 1, self.ev(gens[i + 1].iter, cf))
            self.drive(self.for_each(src, g.target, cf, lambda v: self.assign(g.target, v, cf), body))
        src = self.ev(gens[0].iter, fr)
        cf.node = n
        self.stack.append(cf)
        try:
            level(0, src)
        finally:
            self.stack.pop()

    def try_map(self, n, fr, src):
        """A comprehension without conditions over an abstract sequence, whose
        element expression is a plain term: the mapped sequence."""
        if len(n.generators) != 1 or n.generators[0].ifs or self.path is None:
            return None
        if src[0] != 'seq':
            return None
        seq = self.path.norm(src[1])
        if not any(isinstance(p, Var) for p in seq):
            return None
        g = n.generators[0]
        names = local_names(n)

        def fn(v):
            cf = Frame(fr.func, fr.module, fr, names[0], 'comp')
            cf.node = n
            self.stack.append(cf)
            pure, pb = self.pure, getattr(self, 'pure_base', 0)
            self.pure, self.pure_base = True, cf.serial
            try:
                self.assign(g.target, v, cf)
                return self.ev(n.elt, cf)
            finally:
                self.stack.pop()
                self.pure, self.pure_base = pure, pb
        out = []
        try:
            for p in seq:
                if isinstance(p, Unit):
                    out.append(Unit(fn(p.v)))
                else:
                    before = len(self.world.reg)
                    v = fn(p.value(engine.E_))
                    fn_ = self.snapshot(v, before)
                    key = self.path.to_u(v).sexpr()
                    if key == self.path.to_u(p.base.elem(engine.E_)).sexpr():
                        out.append(Var(p.base, (), '', p.rev))
                    else:
                        out.append(Var(p.base, (fn_,), key, p.rev))   # of the element of the base
        except (NotPure, PyExc):
            return None
        return tuple(out)

    def snapshot(self, v, before=0):
        """The function of the element that has the value v for the element E_."""
        path = self.path

        def sub(x, u):
            if isinstance(x, SV):
                return SV(x.kind, z3.substitute(x.t, (engine.E_, u)))
            if isinstance(x, AbsRef):
                return AbsRef(x.kind, z3.substitute(x.t, (engine.E_, u)))
            if isinstance(x, Opt):
                return Opt(z3.substitute(x.cond, (engine.E_, u)), sub(x.val, u))
            if isinstance(x, tuple):
                return tuple(sub(y, u) for y in x)
            if isinstance(x, SStr):
                return SStr([sub(y, u) for y in x.parts])
            if isinstance(x, (SeqVal, PyList, PyDict)):
                raise NotPure()
            if before and getattr(x, 'serial', -1) >= before:
                raise NotPure()         # one object for each element
            return x
        sub(v, engine.E_)
        return lambda e: sub(v, path.to_u(e))

    def ev_ListComp(self, n, fr):
        src = self.ev(n.generators[0].iter, fr)
        s = self.iter_source(src)
        m = self.try_map(n, fr, s)
        if m is not None:
            return PyList(m)
        out = PyList()
        self.comp_from(n, fr, src if s[0] != 'seq' or not isinstance(src, IterObj) else SeqVal(s[1]),
                       lambda cf: self.write(out, 'seq', out.d['seq'] + (Unit(self.ev(n.elt, cf)),)))
        return out

    def comp_from(self, n, fr, src, emit):
        names = local_names(n)
        cf = Frame(fr.func, fr.module, fr, names[0], 'comp')
        gens = n.generators

        def level(i, src):
            g = gens[i]

            def body():
                for c in g.ifs:
                    if not self.truth(self.ev(c, cf)):
                        return
                if i + 1 == len(gens):
                    emit(cf)
                else:
                    level(i + 1, self.ev(gens[i + 1].iter, cf))
            self.drive(self.for_each(src, g.target, cf, lambda v: self.assign(g.target, v, cf), body))
        cf.node = n
        self.stack.append(cf)
        try:
            level(0, src)
        finally:
            self.stack.pop()

    def ev_SetComp(self, n, fr):
        out = PySet()
        self.comp_from(n, fr, self.ev(n.generators[0].iter, fr),
                       lambda cf: self.lib.dict_set(self, out, self.ev(n.elt, cf), True))
        return out

    def ev_DictComp(self, n, fr):
        out = PyDict()
        self.comp_from(n, fr, self.ev(n.generators[0].iter, fr),
                       lambda cf: self.lib.dict_set(self, out, self.ev(n.key, cf), self.ev(n.value, cf)))
        return out

    def ev_GeneratorExp(self, n, fr):
        """Lazy: evaluated when consumed."""
        src = self.ev(n.generators[0].iter, fr)
        s = self.iter_source(src)
        m = self.try_map(n, fr, s)
        if m is not None:
            return IterObj(m)
        if isinstance(src, IterObj):
            src = SeqVal(s[1])
        names = local_names(n)
        cf = Frame(fr.func, fr.module, fr, names[0], 'comp')
        cf.node = n
        gens = n.generators

        def level(i, src):
            g = gens[i]
            body = GenBody(g, gens, i, n, cf, self, level)
            yield from self.for_each(src, g.target, cf, lambda v: self.assign(g.target, v, cf), body.stmts())
        return PyGen(level(0, src), cf, '<genexpr>')

    def ev_Starred(self, n, fr):
        raise Unsupported('starred expression')

    def ev_Yield(self, n, fr):
        raise Unsupported('yield inside an expression')

    ev_YieldFrom = ev_Yield

    def ev_FormattedValue(self, n, fr):
        return self.lib.concat_str([self.lib.format_value(self, self.ev(n.value, fr), '')])


class GenBody(object):
    """The body of a generator expression as synthetic statements."""

    def __init__(self, g, gens, i, n, cf, interp, level):
        self.g, self.gens, self.i, self.n = g, gens, i, n

    def stmts(self):
        g, gens, i, n = self.g, self.gens, self.i, self.n
        key = (id(n), i)
        c = GenBody.cache.get(key)
        if c is not None:
            return c[1]
        if i + 1 == len(gens):
            inner = [ast.Expr(value=ast.Yield(value=n.elt))]
        else:
            g2 = gens[i + 1]
            sub = GenBody(g2, gens, i + 1, n, None, None, None).stmts()
            inner = [ast.For(target=g2.target, iter=g2.iter, body=sub, orelse=[])]
        for c in reversed(g.ifs):
            inner = [ast.If(test=c, body=inner, orelse=[])]
        for s in inner:
            for x in ast.walk(s):
                if not hasattr(x, 'lineno'):
                    x.lineno = n.lineno
                    x.col_offset = n.col_offset
        GenBody.cache[key] = (n, inner)
        return inner

    cache = {}


class LoopView(object):
    """What a contract sees of a loop when it proposes invariants."""

    def __init__(self, interp, cut):
        self.I = interp
        self.path = interp.path
        self.cut = cut

    @property
    def locs(self):
        return sorted(self.cut.state.mod, key=str)

    def label(self, loc):
        obj = self.I.world.reg[loc[0]]
        if isinstance(obj, Frame):
            return '%s' % (loc[1],) if obj is self.cut.frame else '%s@%d' % (loc[1], loc[0])
        return '%s#%d.%s' % (type(obj).__name__, loc[0], loc[1])

    def val(self, loc):
        return self.I.get_loc(loc)

    def entry(self, loc):
        return self.cut.entry[loc]

    def kind(self, loc):
        return self.cut.state.mod[loc]

    @property
    def P(self):
        """Processed prefix of the sequence the loop runs over (a Seq)."""
        return tuple(self.cut.done) + tuple(self.cut.P)

    @property
    def R(self):
        """What is left of the part the loop runs over."""
        return (self.cut.over[1],) if self.cut.phase == 'entry' else tuple(self.path.norm(self.cut.rest))

    @property
    def is_for(self):
        return self.cut.over is not None

    def numeric(self):
        return [l for l in self.locs if self.kind(l) in ('int', 'real', 'bool')]

    def seqs(self):
        """Changed sequence contents, as (label, getter) pairs."""
        out = []
        for l in self.locs:
            k = self.kind(l)
            if isinstance(k, tuple) and k[0] == 'seq':
                out.append((self.label(l), (lambda l=l: self.val(l)), (lambda l=l: self.entry(l))))
            elif isinstance(k, tuple) and k[0] == 'list':
                out.append((self.label(l), (lambda l=l: self.val(l).d['seq']), (lambda l=l: self.entry(l).d['seq'])))
        return out

    def seq_locs(self):
        """Changed sequence contents with the kind of their elements."""
        ks = [self.kind(l)[-1] for l in self.locs if isinstance(self.kind(l), tuple) and self.kind(l)[0] in ('seq', 'list')]
        return [x + (k,) for x, k in zip(self.seqs(), ks)]

    def refs(self, kindname=None):
        out = []
        for l in self.locs:
            k = self.kind(l)
            base = k
            while isinstance(base, tuple) and base[0] == 'opt':
                base = base[1]
            if isinstance(base, tuple) and base[0] == 'ref' and (kindname is None or base[1].name == kindname):
                out.append(l)
        return out

    def ghosts(self):
        return [l for l in self.locs if isinstance(self.I.world.reg[l[0]], Ghost)]

    def maps(self):
        return [l for l in self.locs if isinstance(self.kind(l), tuple) and self.kind(l)[0] == 'map']
