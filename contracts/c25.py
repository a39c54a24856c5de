"""C25: profiling a program always ends in a stopped profiler and a result.

    __profile__(filename, code, globals_, factory, protocol, dump, mono):
        ensures  the profiler comes from the factory once, with the frame of the driver and the code of the program;
                 the code is executed exactly once in globals_, while the profiler is running, and however it ends - it
                 returns or raises anything - afterwards the profiler is stopped, its statistics are what the program left
                 but for the child of the driver's own code, and they are either written (a dump file is requested: to that
                 file, as it was named before the program ran, with the requested protocol, nothing is shown) or shown
                 (under the base name of the program), once
    dump(file, protocol):  writes (class, result()) with that protocol to that file and closes it
    make_viewer / run_viewer: a viewer of the table class with exactly the result, title and time, active; its loop runs
    the commands: sys.argv is the script's own list when the code runs; -c, -m or a file name select the code; live and
                 remote profiling run the same code once likewise, under the profiler served; timeit compiles the loop
    view: the class, statistics, times in the file, the title and the time of the file are displayed; an address gives a
                 fail-over client of that address
"""
from .common import *
from .c27 import Clocks, record, CHILD
ASSUMPTIONS = ['open, pickle, os.path.abspath, os.path.basename, compile, exec, click.echo behave as documented; pickle.load '
               'gives back what pickle.dump wrote (C06, C07)', 'traceback.print_exc() returns', 'urwid.MainLoop.run() returns or '
               'raises anything']
PROG = '''
def main(Base, log):
    class P(Base):
        table_class = 'the table class'
        def __init__(self, *args, **kwargs):
            Base.__init__(self, *args, **kwargs)
            log('made', self, args, kwargs)
        def run(self, *args, **kwargs):
            log('start', self)
            yield
            log('stop', self)

    class Q(P):
        pass
    return Q

'''
TOOLS = '''
def main(log):
    class File(object):
        def __init__(self, name, mode):
            self.name = name
            self.mode = mode
            self.closed = False
        def __enter__(self):
            return self
        def __exit__(self, *exc):
            self.close()
        def close(self):
            self.closed = True
            log('close', self)
        def flush(self):
            pass
        def write(self, data):
            log('write', self, data)
        def read(self, *args):
            return log('read', self)

    class Screen(object):
        mono = False
        def set_terminal_properties(self, colors=None, *args, **kwargs):
            log('colors', colors)
            self.mono = True

    class Loop(object):
        def __init__(self):
            self.screen = Screen()
            self.event_loop = object()
        def run(self):
            log('run', self)
    return File, Loop
'''
V = 'profiling.viewer:StatisticsViewer.'
M = 'profiling.__main__'
abspath_f = uf('abspath', U, U, U)
base_f = uf('basename', U, U)
MODULES = ['profiling.utils', M]


def s_of(path, t):
    path.add(U.is_s(t)) if hasattr(U, 'is_s') else path.add(path.kind_fact('str', t))
    return path.from_u('str', t)


class Desk(object):
    """everything around a profiling session"""

    def __init__(self, path, ends=('returns', 'Exception', 'ValueError', 'SystemExit', 'KeyboardInterrupt',
                                   'GeneratorExit', 'BaseException')):
        self.path, self.ends = path, ends
        I = path.interp
        I.loading = False
        Clocks(path)
        self.log = []
        self.File, self.Loop = call(path, program(path, TOOLS), Builtin('log', self.tool))
        self.frame = ref(path, FRAME, 'driver frame')
        self.code = ref(path, CODE, 'program code')
        self.globals = PyDict()
        self.cwd = path.fresh('cwd', U)
        self.execs, self.places = [], []
        self.argv = PyList()
        self.running = None
        self.made = []
        self.shown = []
        self.files = []
        self.dumps = []
        self.printed = 0
        self.profiler = None
        self.Q = call(path, program(path, PROG), cls(path, 'profiling.profiler:Profiler'), Builtin('log', self.event))
        model(path, 'sys._getframe', lambda p, a, k: self.frame)
        model(path, 'six.exec_', self.exec_)
        model(path, 'exec', self.exec_)
        for n in ('print_exc', 'print_exception', 'format_exc', 'format_exception'):
            model(path, 'traceback.' + n, self.print_exc)
        model(path, 'click.echo', lambda p, a, k: a[0] if a else None)
        model(path, 'open', self.open)
        model(path, 'pickle.dump', self.dump)
        model(path, 'pickle.dumps', self.dumps_)
        self.packed = {}
        model(path, 'os.path.abspath', self.abspath)
        model(path, 'os.path.basename', lambda p, a, k: s_of(p, base_f(p.to_u(a[0]))))
        for n in ('click.echo', 'click.secho', 'click.style'):
            model(path, n, lambda p, a, k: a[0] if a else None)
        for n in ('set_profiler_class', 'set_result', 'activate', 'inactivate', 'loop', 'pause'):
            I.models[V + n] = self.viewer(n)
        I.models[V + '__init__'] = self.viewer_init

    # the program
    def exec_(self, path, a, k):
        self.execs.append((a[0], a[1] if len(a) > 1 else None))
        self.running = self.profiler is not None and bool(path.interp.decide(call(path, get(path, self.profiler, 'is_running'))))
        self.argv_then = self.argv.d['seq']
        if self.profiler is not None:
            self.stats = record(path, self.profiler)
            self.children = dict_of(self.stats, '_children')
            self.before = self.children.d['c'] if self.children is not None else None
            self.left = {n: get(path, self.stats, n) for n in ('own_hits', 'deep_time')}
        self.cwd = path.fresh('cwd', U)
        how = self.ends[path.choose(len(self.ends), 'the program ends')]
        self.how = how
        path.hint('the program: %s' % how, how)
        if how != 'returns':
            raise path.interp.exc(how, 'raised by the program')

    def event(self, I, a, k):
        if a[0] == 'made':
            self.made.append((a[1], a[2], a[3]))
            self.profiler = a[1]
        else:
            self.log.append((a[0], a[1]))

    def tool(self, I, a, k):
        what = a[0]
        if what == 'run':
            self.shown.append(a[1])
            self.at_show()
            how = ('returns', 'KeyboardInterrupt', 'ValueError')[self.path.choose(3, 'the user interface')]
            self.ui = how
            if how != 'returns':
                raise I.exc(how, 'ui')
        elif what == 'colors':
            self.colors = a[1]
        elif what == 'write':
            args = self.packed.get(a[2]) if isinstance(a[2], bytes) else None
            if args is None:
                raise Unsupported('writing %r' % (a[2],))
            self.dump(self.path, [args[0], a[1]] + list(args[1:]), {})
        elif what == 'read':
            return self.content

    def print_exc(self, path, a, k):
        self.printed += 1
        path.check('the traceback is printed without profiling it', self.stopped())
        return 'the traceback'

    def stopped(self):
        return not self.path.interp.decide(call(self.path, get(self.path, self.profiler, 'is_running')))

    def factory(self):
        return Builtin('profiler_factory', lambda I, a, k: I.call(self.Q, a, k))

    # files
    def abspath(self, path, a, k):
        return s_of(path, self.place(a[0]))

    def place(self, name):
        """the file that is meant by a name in the present directory"""
        path = self.path
        t = path.to_u(name)
        out = abspath_f(self.cwd, t)
        if z3.is_app(t) and t.decl().eq(abspath_f):
            return t
        for f in self.places:       # an absolute name means the same file everywhere
            path.add(z3.Implies(t == f, out == f))
        self.places.append(out)
        return out

    def open(self, path, a, k):
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        f = path.interp.call(self.File, [a[0], mode], {})
        self.files.append((self.place(a[0]), mode, f))
        return f

    def dumps_(self, path, a, k):
        b = b'pickle %d' % len(self.packed)
        self.packed[b] = list(a) + [k[n] for n in ('protocol',) if n in k]
        return b

    def dump(self, path, a, k):
        args = list(a) + [k[n] for n in ('protocol',) if n in k]
        self.dumps.append(args)
        path.check('the profiler is stopped when the result is written', self.stopped())
        path.check('the file is open when the result is written', args[1].d.get('closed') is False)
        self.check_result(args[0][1] if isinstance(args[0], tuple) and len(args[0]) == 2 else None, 'written')

    def check_result(self, r, what):
        path = self.path
        ok = isinstance(r, tuple) and len(r) == 3
        path.check('the result %s has three parts' % what, ok)
        if not ok:
            return
        path.check('the statistics %s are those of the profiler' % what, r[0] is get(path, self.profiler, 'stats'))
        path.check('the statistics %s are those recorded' % what, r[0] is self.stats)
        for n in ('own_hits', 'deep_time'):
            path.check('%s of the root is as the program left it' % n, eq(path, get(path, r[0], n), self.left[n]))
        driver = get(path, self.frame, 'f_code')
        c = self.children.d['c'] if self.children is not None else None
        if c is None or dict_of(self.stats, '_children') is not self.children:
            raise Unsupported('recorded children are not kept in a dictionary named _children')
        path.check('the driver is not part of the result', z3.Not(zb(lib.dict_has(path.interp, c, driver))))
        for x in (ref(path, CODE, 'any code'), self.code):
            other = z3.Not(eq(path, x, driver))
            was = zb(lib.dict_has(path.interp, self.before, x))
            path.check('the other functions stay in the result', z3.Implies(other, was == zb(lib.dict_has(path.interp, c, x))))
        now = path.fresh_value('real', 'x')
        for i, clock in ((1, '_cpu_time_started'), (2, '_wall_time_started')):
            path.check('the time %s is not negative' % what, num(path, r[i]) >= 0)

    # viewers
    def viewer_init(self, path, a, k):
        path.interp.setattr(a[0], 'seen', PyList())

    def viewer(self, name):
        def f(path, a, k):
            v = a[0]
            l = v.d.get('seen')
            path.write(l, 'seq', l.d['seq'] + (Unit(PyObjCall(name, a[1:], dict(k))),))
            if name == 'loop':
                self.the_loop = path.interp.call(self.Loop, [], {})
                self.the_viewer = v
                return self.the_loop
        return f

    def at_show(self):
        path = self.path
        v = self.the_viewer
        seen = [p.v for p in v.d['seen'].d['seq']]
        self.seen = {}
        for c in seen:
            self.seen.setdefault(c.name, []).append(c)
        path.check('shown once', len(self.shown) == 1)
        path.check('one class, one result, activated before the loop runs',
                   [len(self.seen.get(n, ())) for n in ('set_profiler_class', 'set_result', 'activate')] == [1, 1, 1])
        names = [c.name for c in seen]
        if 'set_profiler_class' in names and 'set_result' in names:
            path.check('the class is chosen before the result is set', names.index('set_profiler_class') < names.index('set_result'))


class PyObjCall(PyObj):
    """a recorded call"""
    __slots__ = ('name', 'args', 'kwargs')

    def __init__(self, name, args, kwargs):
        PyObj.__init__(self, lib.object_class)
        self.name, self.args, self.kwargs = name, list(args), kwargs

    def arg(self, i, name, default=None):
        return self.args[i] if len(self.args) > i else self.kwargs.get(name, default)


def check_made(d):
    path = d.path
    path.check('one profiler is built', len(d.made) == 1)
    p, a, k = d.made[0]
    path.check('it measures the program below the driver',
               get(path, p, 'base_frame') is d.frame and get(path, p, 'base_code') is d.code)


def check_session(d, filename, dump_place, protocol, mono, e):
    path = d.path
    path.check('the code is executed exactly once', len(d.execs) == 1)
    if len(d.execs) != 1:
        return
    code, g = d.execs[0]
    path.check('it is the code of the program', code is d.code)
    path.check('it runs in its own globals', g is d.globals)
    path.check('it runs under the running profiler', d.running)
    check_made(d)
    p = d.made[0][0]
    path.check('started and stopped once', [n for n, x in d.log] == ['start', 'stop'])
    path.check('the profiler is stopped', d.stopped())
    if dump_place is not None:
        path.check('nothing is shown', not d.shown)
        path.check('written once', len(d.dumps) == 1 and len(d.files) == 1)
        if len(d.dumps) != 1 or len(d.files) != 1:
            return
        what, f, pr = (d.dumps[0] + [None, None])[:3]
        path.check('written to the requested file', d.files[0][0] == dump_place)
        path.check('the file is written from scratch', d.files[0][1] == 'wb')
        path.check('written into that file', f is d.files[0][2])
        path.check('the file is closed', f.d.get('closed') is True)
        path.check('with the requested protocol', pr is not None and eq(path, pr, protocol))
        path.check('the class is that of the profiler', isinstance(what, tuple) and len(what) == 2 and what[0] is p.cls)
        path.check('no error comes out', e is None)
    else:
        path.check('nothing is written', not d.dumps and not d.files)
        path.check('shown once', len(d.shown) == 1)
        if len(d.shown) != 1 or not hasattr(d, 'seen'):
            return
        check_shown(d, p, s_of(path, base_f(path.to_u(filename))), None, mono)
        if d.ui == 'ValueError':
            path.check('an unknown error of the user interface comes out', is_exc(path, e, 'ValueError'))
        else:
            path.check('no error comes out', e is None)


def check_shown(d, p, title, at, mono):
    path = d.path
    c = d.seen.get('set_profiler_class', [None])[0]
    r = d.seen.get('set_result', [None])[0]
    if c is None or r is None:
        return
    path.check('the class shown is that of the profiler', c.arg(0, 'profiler_class') is p.cls)
    d.check_result((r.arg(0, 'stats'), r.arg(1, 'cpu_time'), r.arg(2, 'wall_time')), 'shown')
    t = r.arg(3, 'title')
    path.check('under the title', t is title or t is not None and title is not None and eq(path, t, title))
    a = r.arg(4, 'at')
    path.check('at the time', a is at or a is not None and at is not None and eq(path, a, at))
    path.check('without colours exactly if asked for', bool(d.shown[0].d['screen'].d.get('mono')) == mono)


@contract('C25', '__profile__ dumps', MODULES)
def profile_dumps(path):
    d = Desk(path)
    filename, dump = fresh(path, 'str', 'filename'), fresh(path, 'str', 'dump file')
    protocol = fresh(path, 'int', 'protocol')
    place = d.place(dump)
    mono = bool(path.choose(2, 'mono'))
    _, e = attempt(path, lambda: call(path, cls(path, M + ':__profile__'), filename, d.code, d.globals, d.factory(),
                                      pickle_protocol=protocol, dump_filename=dump, mono=mono))
    check_session(d, filename, place, protocol, mono, e)
    path.check('the traceback of a failing program is printed once', d.printed == (d.how != 'returns'))
    path.cover('dumped')


@contract('C25', '__profile__ shows', MODULES)
def profile_shows(path):
    d = Desk(path)
    filename = fresh(path, 'str', 'filename')
    mono = bool(path.choose(2, 'mono'))
    _, e = attempt(path, lambda: call(path, cls(path, M + ':__profile__'), filename, d.code, d.globals, d.factory(),
                                      mono=mono))
    check_session(d, filename, None, None, mono, e)
    path.cover('shown')


# --- the commands --------------------------------------------------------------

NET = '''
def main(log):
    class Stream(object):
        def __init__(self, fd):
            self.fd = fd
        def fileno(self):
            return self.fd
        def write(self, text):
            log('wrote', self.fd, text)
        def flush(self):
            pass

    class Sock(object):
        def __init__(self, name):
            self.name = name
            self.closed = False
        def setsockopt(self, *args):
            log('setsockopt', self, args)
        def bind(self, address):
            log('bind', self, address)
        def listen(self, *args):
            log('listen', self)
        def fileno(self):
            return 31
        def getsockname(self):
            return ('host', 1)
        def close(self):
            self.closed = True
            log('close', self)
        def shutdown(self, how):
            log('shutdown', self, how)
    return Stream, Sock
'''


MODULE = """
def main():
    class Spec(object):
        def __init__(self, loader, origin):
            self.loader = loader
            self.origin = origin

    class Context(object):
        def __init__(self, error):
            self.error = error
        def fail(self, message):
            raise self.error
    return Spec, Context
"""
MAIN = """
def main(names):
    class Module(object):
        pass
    m = Module()
    m.__dict__ = names
    return m
"""


class Commands(Desk):
    """a command called by click: the options of the profiler and one of -m, -c or a file"""

    def __init__(self, path, **kw):
        Desk.__init__(self, path, **kw)
        self.compiled = []
        model(path, 'sys.argv@', lambda p: self.argv)
        model(path, 'sys.argv=', self.rebind)
        model(path, 'compile', self.compile)
        model(path, 'click.File.__init__', lambda p, a, k: None)
        model(path, 'click.File.convert', self.script)
        model(path, 'os.path.getmtime', self.mtime)
        self.kw = dict(import_profiler_class=Builtin('import_profiler_class', lambda I, a, k: self.Q),
                       timer_class=None, sampler_class=None, sampling_interval=0.001)
        self.Stream, self.Sock = call(path, program(path, NET), Builtin('log', self.net))
        self.sent = []

    def rebind(self, path, v):
        self.argv = v

    def compile(self, path, a, k):
        if self.how is None:
            self.compiled.append((a[0], a[1], a[2] if len(a) > 2 else k.get('mode')))
        return self.code

    how = None

    def script(self, path, a, k):
        self.asked = a[1]
        self.name = fresh(path, 'str', 'file name')
        self.content = fresh(path, 'any', 'content')
        f = path.interp.call(self.File, [self.name, 'rb'], {})
        self.source = f
        return f

    def net(self, I, a, k):
        self.sent.append(tuple(a))

    def choose(self):
        """-m, -c or a file name; -> (module, command, argv, filename, rest)"""
        path = self.path
        self.which = which = ('module', 'command', 'script')[path.choose(3, 'the program is a')]
        rest = (Var(path.new_seq('str', 'arguments')),)
        if which == 'script':
            file = fresh(path, 'str', 'script')
            self.file = file
            return None, None, SeqVal((Unit(file),) + rest), rest
        self.name = fresh(path, 'str', 'file name')
        triple = (self.name, self.code, self.globals)
        if which == 'module':
            return triple, None, SeqVal(rest), rest
        return None, triple, SeqVal(rest), rest

    def check_program(self, rest):
        path = self.path
        path.check('the code is executed exactly once', len(self.execs) == 1)
        if len(self.execs) != 1:
            return
        code, g = self.execs[0]
        path.check('it is the code of the program', code is self.code)
        if self.which == 'script':
            path.check('the script is read from the file named', eq(path, self.asked, self.file))
            path.check('and closed', self.source.d.get('closed') is True)
            ok = len(self.compiled) == 1
            path.check('compiled once', ok)
            if ok:
                src, name, mode = self.compiled[0]
                path.check('its content is compiled', eq(path, src, self.content))
                path.check('under its name', eq(path, name, self.name))
                path.check('as a program', mode == 'exec')
            self.check_globals(g, self.name)
        else:
            path.check('it runs in its own globals', g is self.globals)
        path.check('sys.argv is the list of the script: its name, then the arguments after it',
                   path.seq_eq(self.argv_then, (Unit(self.name),) + rest))

    def check_globals(self, g, filename):
        path = self.path
        path.check('the globals are a dictionary', isinstance(g, PyDict))
        if isinstance(g, PyDict):
            for n, v in (('__name__', '__main__'), ('__file__', filename)):
                got = lib.dict_get(path.interp, g, n, None)
                path.check('the script runs with %s' % n, got is not None and eq(path, got, v))
            path.check('nothing else is in its globals',
                       all(isinstance(k, str) and k.startswith('__') for k, v, _ in g.d['c'].items))

    def mtime(self, path, a, k):
        return SV('real', path.fresh('mtime', REAL))

    def callback(self, name):
        cli = cls(self.path, M + ':cli')
        cmd = lib.dict_get(self.path.interp, cli.d['commands'], name, None)
        if cmd is None:
            raise Unsupported('there is no command %s' % name)
        return cmd.d['callback']

    def run(self, name, **kw):
        kw = dict(self.kw, **kw)
        return attempt(self.path, lambda: call(self.path, self.callback(name), **kw))


@contract('C25', 'the command profile', MODULES)
def command_profile(path):
    d = Commands(path, ends=('returns', 'SystemExit'))
    module, command, argv, rest = d.choose()
    dump = fresh(path, 'str', 'dump file') if path.choose(2, 'a dump file is requested') else None
    protocol = fresh(path, 'int', 'protocol')
    place = d.place(dump) if dump is not None else None
    mono = bool(path.choose(2, 'mono'))
    _, e = d.run('profile', module=module, command=command, argv=argv, dump_filename=dump, pickle_protocol=protocol, mono=mono)
    d.check_program(rest)
    d.globals = d.execs[0][1] if d.execs else d.globals
    check_session(d, getattr(d, 'name', None), place, protocol, mono, e)
    path.cover('profiled')


def own_globals(path, got, expected):
    """The globals of a program that is no file: exactly the expected names (and others that Python gives a module)."""
    path.check('the globals are a dictionary', isinstance(got, PyDict))
    if isinstance(got, PyDict):
        for n, v in expected.items():
            has = lib.dict_get(path.interp, got, n, None)
            path.check('it runs with %s' % n, has is not None and eq(path, has, v))


@contract('C25', 'a program given as a string', MODULES)
def string_program(path):
    d = Commands(path)
    kind = new(path, M + ':Command')
    value = fresh(path, 'str', 'program')
    results = []
    for n in range(2):
        r, e = attempt(path, lambda: call(path, get(path, kind, 'convert'), value, None, None))
        path.check('does not fail', e is None)
        ok = e is None and isinstance(r, tuple) and len(r) == 3 and len(d.compiled) == n + 1
        path.check('compiled once, to a name, code and globals', ok)
        if not ok:
            return
        results.append(r)
        filename, code, g = r
        src, name, mode = d.compiled[n]
        path.check('the string is compiled', eq(path, src, value))
        path.check('as a program', mode == 'exec')
        path.check('under the name by which it is shown', eq(path, name, filename))
        path.check('the code is the compiled string', code is d.code)
        own_globals(path, g, {'__name__': '__main__'})
        if isinstance(g, PyDict):
            path.check('nothing else is in its globals',
                       all(isinstance(k, str) and k.startswith('__') for k, v, _ in g.d['c'].items))
    path.check('two programs do not share their globals', results[0][2] is not results[1][2])
    path.cover('converted')


@contract('C25', 'a program given as a module', MODULES)
def module_program(path):
    d = Commands(path)
    kind = new(path, M + ':Module')
    value = fresh(path, 'str', 'module')
    name, package = fresh(path, 'str', 'full name'), fresh(path, 'str', 'package')
    Spec, Ctx = call(path, program(path, MODULE))
    found = bool(path.choose(2, 'the module is found'))
    spec = call(path, Spec, fresh(path, 'any', 'loader'), fresh(path, 'str', 'origin'))
    ctx = call(path, Ctx, path.interp.exc('UsageError', 'no such module').value)
    main = PyDict()
    lib.dict_set(path.interp, main, '__name__', 'profiling')
    lib.dict_set(path.interp, main, 'the driver', 1)
    asked = []

    def details(p, a, k):
        asked.append(a[0])
        if not found:
            raise p.interp.exc('ImportError', 'no module')
        return (name, spec, d.code)

    def rpartition(p, a, k):
        p.check('the package is the part before the last dot', eq(p, a[0], name) and a[1] == '.')
        return (package, fresh(p, 'str', 'dot'), fresh(p, 'str', 'last part'))
    model(path, 'runpy._get_module_details', details)
    model(path, 'str.rpartition', rpartition)
    model(path, 'str.partition', lambda p, a, k: tuple(fresh(p, 'str', 'part') for x in range(3)))
    modules = PyDict()
    lib.dict_set(path.interp, modules, '__main__', call(path, program(path, MAIN), main))
    model(path, 'sys.modules@', lambda p: modules)
    r, e = attempt(path, lambda: call(path, get(path, kind, 'convert'), value, None, ctx))
    path.check('the module named is looked up', len(asked) == 1 and eq(path, asked[0], value))
    if not found:
        path.check('a module that is not found is rejected', is_exc(path, e, 'UsageError'))
        path.cover('not found')
        return
    path.check('does not fail', e is None)
    ok = e is None and isinstance(r, tuple) and len(r) == 3
    path.check('a name, code and globals', ok)
    if not ok:
        return
    filename, code, g = r
    path.check('the code is the code of the module', code is d.code)
    path.check('under the file of the module', eq(path, filename, spec.d['origin']))
    own_globals(path, g, {'__name__': '__main__', '__file__': spec.d['origin'], '__loader__': spec.d['loader'],
                          '__package__': package})
    path.check('the globals of the driver are not the globals of the program', g is not main)
    path.check('and are not changed', main.d['c'].items and lib.dict_get(path.interp, main, '__name__', None) == 'profiling')
    path.cover('converted')


@contract('C25', 'the command needs one program', MODULES)
def command_program(path):
    d = Commands(path)
    name = ('profile', 'live-profile', 'remote-profile')[path.choose(3, 'command')]
    triple = ('name', d.code, d.globals)
    argv = SeqVal((Var(path.new_seq('str', 'arguments')),))
    extra = {'profile': dict(dump_filename=None)}.get(name, dict(interval=1.0, spawn=None, signum=12))
    if name == 'remote-profile':
        extra.update(endpoint=('h', 1), verbose=False)
    else:
        extra.update(mono=False)
    if path.choose(2, 'which'):
        _, e = d.run(name, module=triple, command=triple, argv=argv, pickle_protocol=2, **extra)
    else:
        _, e = d.run(name, module=None, command=None, argv=SeqVal(()), pickle_protocol=2, **extra)
    path.check('both -m and -c, or no program: a usage error', is_exc(path, e, 'UsageError'))
    path.check('nothing is executed', not d.execs and not d.made)
    path.cover('rejected')


@contract('C25', 'the command timeit', MODULES)
def command_timeit(path):
    d = Commands(path, ends=('returns', 'ValueError'))
    stmt, setup, number = fresh(path, 'str', 'statement'), fresh(path, 'str', 'setup'), fresh(path, 'int', 'number')
    dump = fresh(path, 'str', 'dump file') if path.choose(2, 'a dump file is requested') else None
    place = d.place(dump) if dump is not None else None
    protocol = fresh(path, 'int', 'protocol')
    mono = bool(path.choose(2, 'mono'))
    inner = d.exec_
    first = []

    def exec_(p, a, k):
        if not first:
            first.append((a[0], a[1]))
            p.check('the setup runs before the profiler is built', not d.made)
            return None
        return inner(p, a, k)
    for n in ('six.exec_', 'exec'):
        model(path, n, exec_)
    _, e = d.run('timeit-profile', stmt=stmt, number=number, repeat=3, setup=setup, pickle_protocol=protocol,
                 dump_filename=dump, mono=mono, time=None, clock=None, verbose=None)
    ok = len(first) == 1 and len(d.execs) == 1
    path.check('setup and statement are executed', ok)
    if not ok:
        return
    path.check('the setup is the one given', eq(path, first[0][0], setup))
    path.check('both run in the same globals', first[0][1] is d.execs[0][1])
    path.check('the loop is compiled once', len(d.compiled) == 1)
    src = call(path, program(path, "def main(n, s): return 'for _ in range(%d): %s' % (n, s)"), number, stmt)
    if len(d.compiled) == 1:
        path.check('the statement is repeated number times', eq(path, d.compiled[0][0], src))
        path.check('it is compiled as a program', d.compiled[0][2] == 'exec')
    d.globals = first[0][1]
    check_session(d, stmt, place, protocol, mono, e)
    path.cover('timed')


class Live(Commands):
    def __init__(self, path, **kw):
        Commands.__init__(self, path, **kw)
        I = path.interp
        self.spawned, self.fds, self.kills, self.dups = [], {}, [], []
        self.parent, self.child = [call(path, self.Sock, n) for n in ('parent', 'child')]
        for n, fd in (('stdin', 100), ('stdout', 101), ('stderr', 102)):
            model(path, 'sys.%s@' % n, lambda p, s=call(path, self.Stream, fd): s)
        model(path, 'socket.socketpair', lambda p, a, k: (self.parent, self.child))
        model(path, 'socket.socket', self.socket)
        model(path, 'os.pipe', lambda p, a, k: (50, 51))
        model(path, 'os.open', lambda p, a, k: 52)
        model(path, 'os.close', lambda p, a, k: self.fds.__setitem__(a[0], 'closed'))
        model(path, 'os.dup2', lambda p, a, k: self.dups.append((a[0], a[1])))
        model(path, 'os.kill', lambda p, a, k: self.kills.append((a[0], a[1])))
        model(path, 'threading.Event', lambda p, a, k: call(p, self.Sock, 'event'))
        model(path, 'threading.Lock', lambda p, a, k: call(p, self.Sock, 'lock'))
        model(path, 'signal.signal', self.signal)
        self.signals = []
        self.spawn = Builtin('spawn', self.do_spawn)
        self.interval, self.signum = fresh(path, 'real', 'interval'), fresh(path, 'int', 'signum')
        self.protocol = fresh(path, 'int', 'protocol')
        self.listeners = []

    def socket(self, path, a, k):
        s = call(path, self.Sock, 'listener')
        self.listeners.append((s, a))
        return s

    def signal(self, path, a, k):
        self.signals.append((a[0], a[1]))

    def do_spawn(self, I, a, k):
        self.path.check('the server is started before the program', not self.execs)
        self.path.check('after the signal handler is in place', len(self.signals) == 1)
        self.spawned.append((a[0], a[1:]))

    def check_server(self, server, listener):
        path = self.path
        path.check('one signal handler', len(self.signals) == 1)
        trigger = get(path, server, 'profiler')
        path.check('the profiler is triggered in the background',
                   isinstance(trigger, PyObj) and trigger.cls.issub(cls(path, 'profiling.remote.background:BackgroundProfiler')))
        check_made(self)
        path.check('the profiler served is the one built', get(path, trigger, 'profiler') is self.made[0][0])
        path.check('with the signal given', eq(path, get(path, trigger, 'signum'), self.signum))
        if self.signals:
            path.check('which is handled', eq(path, self.signals[0][0], self.signum))
        path.check('at the interval given', eq(path, get(path, server, 'interval'), self.interval))
        path.check('in the protocol given', eq(path, get(path, server, 'pickle_protocol'), self.protocol))
        path.check('for the listener', get(path, server, 'listener') is listener)

    def check_end(self, e, swallowed=()):
        path = self.path
        if self.how == 'returns' or self.how in swallowed:
            path.check('the command returns', e is None)
        else:
            path.check('what the program raised comes out', is_exc(path, e, self.how))


def forked(pid):
    return lambda p, a, k: pid


@contract('C25', 'the command live-profile in the child', MODULES)
def live_child(path):
    d = Live(path)
    module, command, argv, rest = d.choose()
    model(path, 'os.fork', lambda p, a, k: 0)
    _, e = d.run('live-profile', module=module, command=command, argv=argv, interval=d.interval, spawn=d.spawn,
                 signum=d.signum, pickle_protocol=d.protocol, mono=False)
    d.check_program(rest)
    if not d.execs:
        return
    path.check('one server is started', len(d.spawned) == 1)
    if len(d.spawned) == 1:
        f, a = d.spawned[0]
        ok = isinstance(f, BoundMethod) and f.name == 'connected' if hasattr(f, 'name') else isinstance(f, BoundMethod)
        path.check('which serves the parent', ok and list(a) == [d.child])
        if ok:
            d.check_server(f.obj if hasattr(f, 'obj') else f.self, None)
    d.check_end(e)
    path.check('the parent is told about the end', [x for x in d.sent if x[0] in ('shutdown', 'close') and x[1] is d.child] != [])
    path.cover('child')


@contract('C25', 'the command live-profile in the parent', MODULES)
def live_parent(path):
    d = Live(path)
    I = path.interp
    module, command, argv, rest = d.choose()
    model(path, 'os.fork', lambda p, a, k: 4711)
    left = bool(path.choose(2, 'the child has ended'))
    code = fresh(path, 'int', 'exit code')
    status = fresh(path, 'int', 'status')
    model(path, 'os.waitpid', lambda p, a, k: (4711 if left else 0, status if left else 0))
    model(path, 'os.WEXITSTATUS', lambda p, a, k: code)
    d.content = ''
    model(path, 'os.fdopen', lambda p, a, k: p.interp.call(d.File, [a[0], 'r'], {}))
    clients, d.at_show = [], lambda: path.check('the client is started before the loop', len(clients) == 2)
    C = 'profiling.remote.client:ProfilingClient.'
    I.models[C + '__init__'] = lambda p, a, k: clients.append(PyObjCall('init', a[1:], k))
    I.models[C + 'start'] = lambda p, a, k: clients.append(PyObjCall('start', a[1:], k))
    for s in ('exit',):
        model(path, 'sys.exit', lambda p, a, k: (_ for _ in ()).throw(p.interp.exc('SystemExit', *a)))
    _, e = d.run('live-profile', module=module, command=command, argv=argv, interval=d.interval, spawn=d.spawn,
                 signum=d.signum, pickle_protocol=d.protocol, mono=bool(path.choose(2, 'mono')))
    path.check('the program does not run in the parent', not d.execs and not d.made)
    path.check('the viewer runs', len(d.shown) == 1)
    path.check('one client', [c.name for c in clients] == ['init', 'start'])
    if len(clients) == 2:
        c = clients[0]
        path.check('of the child', c.arg(2, 'sock') is d.parent and c.arg(0, 'viewer') is d.the_viewer)
        path.check('in the event loop of the viewer', c.arg(1, 'event_loop') is d.the_loop.d.get('event_loop'))
    path.check('the socket is closed', d.parent.d.get('closed') is True)
    if d.shown and d.ui == 'ValueError':
        path.check('an unknown error of the user interface comes out', is_exc(path, e, 'ValueError'))
    else:
        path.check('the exit code is that of the child', is_exc(path, e, 'SystemExit') and eq(path, lib.first_arg(e) if hasattr(lib, 'first_arg') else path.interp.getattr(e, 'args')[0], code))
    path.cover('parent')


@contract('C25', 'the command remote-profile', MODULES)
def remote_profile(path):
    d = Live(path)
    module, command, argv, rest = d.choose()
    endpoint = (fresh(path, 'str', 'host'), fresh(path, 'int', 'port'))
    verbose = bool(path.choose(2, 'verbose'))
    _, e = d.run('remote-profile', module=module, command=command, argv=argv, interval=d.interval, spawn=d.spawn,
                 signum=d.signum, pickle_protocol=d.protocol, endpoint=endpoint, verbose=verbose)
    d.check_program(rest)
    if not d.execs:
        return
    path.check('one listener', len(d.listeners) == 1)
    l = d.listeners[0][0]
    ops = [x for x in d.sent if x[1] is l]
    names = [x[0] for x in ops]
    path.check('it listens at the address given', 'bind' in names and 'listen' in names and names.index('bind') < names.index('listen')
               and eq(path, [x for x in ops if x[0] == 'bind'][0][2], endpoint))
    path.check('one server is started', len(d.spawned) == 1)
    if len(d.spawned) == 1:
        f, a = d.spawned[0]
        path.check('which serves for ever', isinstance(f, BoundMethod) and not a)
        if isinstance(f, BoundMethod):
            d.check_server(f.obj if hasattr(f, 'obj') else f.self, l)
    d.check_end(e, ('KeyboardInterrupt',))
    path.cover('remote')


# --- files -----------------------------------------------------------------------

@contract('C25', 'the command view', MODULES)
def command_view(path):
    d = Commands(path)
    I = path.interp
    kind = ('dump', 'tcp', 'sock')[path.choose(3, 'source')]
    name = (fresh(path, 'str', 'host'), fresh(path, 'int', 'port')) if kind == 'tcp' else fresh(path, 'str', 'source')
    result = tuple(fresh(path, k, n) for k, n in (('any', 'stats'), ('real', 'cpu time'), ('real', 'wall time')))
    stamp, time = fresh(path, 'real', 'mtime'), fresh(path, 'any', 'time')

    def load(p, a, k):
        p.check('the file is open', a[0].d.get('closed') is False)
        return (d.Q, result)

    def mtime(p, a, k):
        p.check('the time of the file', eq(p, a[0], name))
        return stamp

    def fromtimestamp(p, a, k):
        p.check('the time the file was written', eq(p, a[0], stamp))
        return time
    model(path, 'pickle.load', load)
    model(path, 'os.path.getmtime', mtime)
    model(path, 'datetime.datetime.fromtimestamp', fromtimestamp)
    clients = []
    C = 'profiling.remote.client:FailoverProfilingClient.'
    I.models[C + '__init__'] = lambda p, a, k: clients.append(PyObjCall('init', a[1:], k))
    I.models[C + 'start'] = lambda p, a, k: clients.append(PyObjCall('start', a[1:], k))

    def at_show():
        v = d.the_viewer
        calls = [p.v for p in v.d['seen'].d['seq'] if p.v.name != 'loop']
        names = [c.name for c in calls]
        if kind == 'dump':
            path.check('the class, the result, and the viewer is active', names == ['set_profiler_class', 'set_result', 'activate'])
            if names == ['set_profiler_class', 'set_result', 'activate']:
                path.check('the class of the file', calls[0].arg(0, 'profiler_class') is d.Q)
                r = calls[1]
                for i, n in enumerate(('stats', 'cpu_time', 'wall_time')):
                    path.check('the %s of the file' % n, eq(path, r.arg(i, n), result[i]))
                path.check('the title is the name of the file', eq(path, r.arg(3, 'title'), s_of(path, base_f(path.to_u(name)))))
                path.check('the time is that of the file', eq(path, r.arg(4, 'at'), time))
            path.check('the file is read', len(d.files) == 1 and d.files[0][1] == 'rb' and d.files[0][2].d.get('closed') is True)
            path.check('it is the file named', d.files[0][0] == d.place(name))
            path.check('no client', not clients)
        else:
            path.check('nothing is shown yet', not names)
            path.check('one client', [c.name for c in clients] == ['init', 'start'])
            if len(clients) != 2:
                return
            c = clients[0]
            path.check('it feeds the viewer', c.arg(0, 'viewer') is v)
            path.check('in the event loop of the viewer', c.arg(1, 'event_loop') is d.the_loop.d.get('event_loop'))
            path.check('of that address', eq(path, c.arg(2, 'addr'), name))
            f = c.arg(3, 'family')
            path.check('in its family', f is not None and eq(path, f, cls(path, M + ':socket').attrs['AF_INET' if kind == 'tcp' else 'AF_UNIX']))
    d.at_show = at_show
    _, e = attempt(path, lambda: call(path, d.callback('view'), src=(kind, name), mono=bool(path.choose(2, 'mono'))))
    path.check('shown once', len(d.shown) == 1)
    if d.shown and d.ui == 'ValueError':
        path.check('an unknown error comes out', is_exc(path, e, 'ValueError'))
    else:
        path.check('no error comes out', e is None)
    path.cover('viewed')


@contract('C25', 'Profiler.dump, make_viewer and run_viewer', MODULES)
def profiler_results(path):
    """while the profiler is running or not"""
    d = Desk(path)
    p = new_profiler(d, path)
    d.profiler = p
    if path.choose(2, 'started before'):
        call(path, get(path, p, 'start'))
        if path.choose(2, 'stopped again'):
            call(path, get(path, p, 'stop'))
    d.stats = record(path, p)
    d.children = dict_of(d.stats, '_children')
    before = d.children.d['c'] if d.children is not None else None
    d.before = before
    d.left = {n: get(path, d.stats, n) for n in ('own_hits', 'deep_time')}
    d.stopped = lambda: True
    driver = get(path, d.frame, 'f_code')
    path.assume(z3.Not(zb(lib.dict_has(path.interp, before, driver))))
    which = path.choose(3, 'what')
    title = fresh(path, 'str', 'title')
    at = fresh(path, 'any', 'time')
    if which == 0:
        name, protocol = fresh(path, 'str', 'file'), fresh(path, 'int', 'protocol')
        place = d.place(name)
        call(path, get(path, p, 'dump'), name, protocol)
        ok = len(d.dumps) == 1 and len(d.files) == 1
        path.check('written once', ok)
        if ok:
            what, f, pr = (d.dumps[0] + [None, None])[:3]
            path.check('to the file', d.files[0][0] == place and d.files[0][1] == 'wb' and f is d.files[0][2])
            path.check('which is closed', f.d.get('closed') is True)
            path.check('with the protocol', pr is not None and eq(path, pr, protocol))
            path.check('the class', isinstance(what, tuple) and len(what) == 2 and what[0] is p.cls)
    else:
        mono = False
        d.the_loop = None
        if which == 1:
            v = call(path, get(path, p, 'make_viewer'), title=title, at=at)
            d.the_viewer = v
            d.shown = [PyObj(lib.object_class)]
            d.shown[0].d['screen'] = PyObj(lib.object_class)
            d.at_show()
        else:
            mono = bool(path.choose(2, 'mono'))
            _, e = attempt(path, lambda: call(path, get(path, p, 'run_viewer'), title=title, at=at, mono=mono))
            path.check('shown once', len(d.shown) == 1)
        if hasattr(d, 'seen'):
            check_shown(d, p, title, at, mono)
    path.cover('done')


def new_profiler(d, path):
    return path.interp.call(d.Q, [], {})
