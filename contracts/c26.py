"""C26: command-line values select exactly what they name.

    Class.convert(value): the base for its own name, else the attribute <Value>[<Base>] of the first module which has a class
        of the right kind under that name; otherwise rejected (checked on the types of the options as declared)
    SignalNumber.convert: numbers as they are; names, with or without SIG, in any case, to the signal of that name; else rejected
    Endpoint.convert: exactly host:number to (host, number); else rejected
    ViewerSource.convert: an existing socket or regular file to itself, a missing file to the endpoint it names; else rejected
    get_command: an alias to its command, other names to themselves
    config_default(option): the value of .profiling, else of setup.cfg, else the built-in default, read anew in every click
        context; for every option declared with one: in the type of the option
    config_flag: whether the configured value is the one of the flag
    profiler_options: the profiler is of the selected class with a new timer of the selected class, or a sampler of the selected
        class at the selected interval; the other options are passed on
    spawn(mode): runs func(*args, **kwargs) in a daemon thread, a greenlet of gevent or of eventlet; other modes are rejected
"""
import stat as host_stat
from .common import *
ASSUMPTIONS = ['str.title, str.upper, str.startswith, str.isdigit, str.split, int(str) behave as documented',
               'ConfigParser.read overlays the files in the order given and skips missing ones; get, getint, getfloat and '
               'getboolean convert the value that is configured', 'click takes a default exactly when an option is not given '
               'and converts a string by the type of the option', 'the signals are of the type signal.Signals, not int', 'attributes of the module signal whose names start with SIG but not '
               'SIG_ are signal numbers']
M = 'profiling.__main__'
MODULES = ['profiling.utils', M]


def concat(path, a, b):
    return call(path, program(path, 'def main(a, b): return a + b'), a, b)


def declared(path, *decorators):
    """the click parameters a decorator declares: first long name -> parameter"""
    f = program(path, 'def main(**kwargs): return kwargs')
    out = {}
    for name in decorators:
        g = call(path, cls(path, M + ':' + name), f)
        l = g.d.get('__click_params__')
        for p in (l.d['seq'] if l is not None else ()):
            p = p.v
            longs = [n for n in p.d['decls'] if n.startswith('--')] or list(p.d['decls'])
            out[longs[-1]] = p
    return out


def option(path, decorator, name):
    o = declared(path, decorator).get(name)
    if o is None:
        raise Unsupported('no option %s' % name)
    return o


class Strings(object):
    """unknown strings"""

    def __init__(self, path):
        self.path = path
        path.interp.loading = False
        self.title_f, self.upper_f = uf('str.title', U, U), uf('str.upper', U, U)
        for n, f in (('title', self.title_f), ('upper', self.upper_f)):
            model(path, 'str.' + n, lambda p, a, k, f=f: self.new(f(p.to_u(a[0]))))
        model(path, 'str.startswith', self.startswith)
        model(path, 'str.isdigit', lambda p, a, k: SV('bool', uf('isdigit', U, B)(p.to_u(a[0]))))
        model(path, 'int', self.int)

    def new(self, t):
        self.path.add(self.path.kind_fact('str', t))
        return self.path.from_u('str', t)

    def starts(self, s, prefix):
        """-> z3 term"""
        path = self.path
        if isinstance(s, SStr) and isinstance(s.parts[0], str):
            lit = s.parts[0]
            if len(prefix) <= len(lit):
                return z3.BoolVal(lit.startswith(prefix))
            if not prefix.startswith(lit) or len(s.parts) < 2:
                return z3.BoolVal(False)
            return self.starts(s.parts[1], prefix[len(lit):])
        t = path.to_u(s)
        for i in range(1, len(prefix)):
            path.add(z3.Implies(uf('starts with ' + prefix, U, B)(t), uf('starts with ' + prefix[:i], U, B)(t)))
        return uf('starts with ' + prefix, U, B)(t)

    def startswith(self, path, a, k):
        if isinstance(a[1], str):
            return SV('bool', self.starts(a[0], a[1]))
        raise Unsupported('startswith')

    def number(self, s):
        """is it a number?, which"""
        t = self.path.to_u(s)
        return uf('is an int', U, B)(t), uf('int of', U, INT)(t)

    def int(self, path, a, k):
        if isinstance(a[0], SV) and a[0].kind == 'str':
            ok, v = self.number(a[0])
            path.add(z3.Implies(uf('isdigit', U, B)(path.to_u(a[0])), ok))
            if path.decide(ok):
                return SV('int', v)
            raise path.interp.exc('ValueError', 'invalid literal')
        return NotImplemented


REJECTED = ('ValueError', 'BadParameter', 'UsageError', 'TypeError')


def rejected(path, e):
    return e is not None and any(is_exc(path, e, n) for n in REJECTED)


def convert(path, t, value):
    return attempt(path, lambda: call(path, get(path, t, 'convert'), value, None, None))


def class_contract(name, opt, mod, base, base_name):
    @contract('C26', 'the class for %s' % opt, MODULES)
    def class_option(path):
        s = Strings(path)
        I = path.interp
        t = option(path, 'profiler_options', opt).d.get('k_type')
        module = I.modules[mod]
        base_cls = cls(path, mod + ':' + base)
        value = fresh(path, 'str', 'value')
        path.hint('value', value)
        asked = []
        attrs = sorted(n for n in module.d if not n.startswith('__') and not isinstance(module.d[n], Ext))

        def getattr_(p, a, k):
            p.check('looked up in the module of the %ss' % name, a[0] is module)
            want = concat(p, s.new(s.title_f(p.to_u(value))), base)
            p.check('under the name of the value and the kind', eq(p, a[1], want))
            if not asked:
                i = p.choose(len(attrs) + 1, 'the name is')
                asked.append(None if i == len(attrs) else module.d[attrs[i]])
            if asked[0] is None:
                if len(a) > 2:
                    return a[2]
                raise p.interp.exc('AttributeError', 'no such class')
            return asked[0]
        model(path, 'getattr', getattr_)
        r, e = convert(path, t, value)
        if base_name is not None and path.decide(eq(path, value, base_name)):
            path.check('%s is the %s itself' % (base_name, name), e is None and r is base_cls)
            path.cover('base')
            return
        a = asked[0] if asked else None
        path.check('the value is looked up', bool(asked))
        if isinstance(a, PyClass) and a.issub(base_cls):
            path.check('the class of that name', e is None and r is a)
        else:
            path.check('what is no class of the kind is rejected', rejected(path, e))
        path.cover('looked up')

    @contract('C26', 'the names for %s' % opt, MODULES)
    def class_names(path):
        path.interp.loading = False
        t = option(path, 'profiler_options', opt).d.get('k_type')
        table = {'timer': {'basic': 'Timer', 'thread': 'ThreadTimer', 'greenlet': 'GreenletTimer', 'Thread': 'ThreadTimer'},
                 'sampler': {'itimer': 'ItimerSampler', 'tracing': 'TracingSampler', 'TRACING': 'TracingSampler'}}[name]
        for value, n in sorted(table.items()):
            r, e = convert(path, t, value)
            path.check('%s names %s' % (value, n), e is None and r is cls(path, mod + ':' + n))
        for value in ('foo', 'runnable', 'interval', 'time', 'none', 'profiler'):
            r, e = convert(path, t, value)
            path.check('%s is rejected' % value, rejected(path, e))


class_contract('timer', '--timer', 'profiling.tracing.timers', 'Timer', 'basic')
class_contract('sampler', '--sampler', 'profiling.sampling.samplers', 'Sampler', None)


@contract('C26', 'signals', MODULES)
def signals(path):
    s = Strings(path)
    t = new(path, M + ':SignalNumber')
    kind = path.choose(2, 'a number or text')
    if kind == 0:
        v = fresh(path, 'int', 'number')
        r, e = convert(path, t, v)
        path.check('a number is that signal', e is None and eq(path, r, v))
        path.cover('number')
        return
    v = fresh(path, 'str', 'text')
    signum = fresh(path, 'int', 'signal')
    found = []

    def getattr_(p, a, k):
        p.check('looked up among the signals', isinstance(a[0], Ext) and a[0].name == 'signal')
        if found:       # asked again
            p.check('one name is looked up', eq(p, found[0], a[1]))
            exists = found[1]
        else:
            exists = p.choose(2, 'the signal exists')
            found.extend([a[1], exists])
        if not exists:
            if len(a) > 2:
                return a[2]
            raise p.interp.exc('AttributeError', 'no such signal')
        return signum
    model(path, 'getattr', getattr_)
    r, e = convert(path, t, v)
    if path.decide(uf('isdigit', U, B)(path.to_u(v))):
        path.check('digits are that number', e is None and eq(path, r, SV('int', s.number(v)[1])))
        path.cover('digits')
        return
    up = s.new(s.upper_f(path.to_u(v)))
    name = up if path.decide(s.starts(up, 'SIG')) else concat(path, 'SIG', up)
    if path.decide(s.starts(name, 'SIG_')):
        path.check('handlers are no signals', rejected(path, e))
        path.cover('handler')
        return
    path.check('the name is looked up', len(found) >= 2)
    if len(found) >= 2:
        path.check('with SIG in front', eq(path, found[0], name))
        if found[1]:
            path.check('the signal of that name', e is None and r is signum)
        else:
            path.check('an unknown name is rejected', rejected(path, e))
    path.cover('name')


@contract('C26', 'the names of the signals', MODULES)
def signal_names(path):
    import signal as host
    path.interp.loading = False
    t = new(path, M + ':SignalNumber')
    for n in ('SIGUSR1', 'SIGUSR2', 'SIGINT', 'SIGTERM', 'SIGPROF', 'SIGALRM', 'SIGHUP'):
        want = int(getattr(host, n))
        for v in (n, n.lower(), n[3:], n[3:].lower(), str(want), want):
            r, e = convert(path, t, v)
            path.check('%s is signal %d' % (v, want), e is None and eq(path, r, want))
    for v in ('foo', 'SIG_DFL', '_ign', 'sig_ign', '-1', '1.5'):
        path.interp.ext_models.clear()
        model(path, 'getattr', lambda p, a, k: NotImplemented)
        o = path.interp.modules[M].d['signal']
        r, e = attempt(path, lambda: convert_closed(path, t, v, host))
        path.check('%s is rejected' % v, rejected(path, e))


def convert_closed(path, t, v, host):
    """with the attributes the module really has"""
    o = path.interp.modules[M].d['signal']
    for n in ('SIG' + v.upper(), v.upper()):
        if not hasattr(host, n):
            def missing(p, n=n):
                raise p.interp.exc('AttributeError', n)
            model(path, 'signal.%s@' % n, missing)
    return call(path, get(path, t, 'convert'), v, None, None)


def endpoint_pieces(path, s):
    """str.split(':') and the like of an unknown string"""
    pieces = [fresh(path, 'str', 'piece %d' % i) for i in range(path.choose(4, 'colons') + 1)]

    def split(p, a, k):
        if a[1] != ':' or len(a) > 2 or k:
            raise Unsupported('split')
        return PyList(tuple(Unit(x) for x in pieces))
    model(path, 'str.split', split)
    model(path, 'str.count', lambda p, a, k: len(pieces) - 1)
    return pieces


def check_endpoint(path, s, pieces, r, e, wrap=lambda r: r):
    if len(pieces) == 2 and path.decide(s.number(pieces[1])[0]):
        want = wrap((pieces[0], SV('int', s.number(pieces[1])[1])))
        path.check('host and port number', e is None and isinstance(r, tuple) and eq(path, r, want))
        path.cover('endpoint')
    else:
        path.check('what is no host:number is rejected', rejected(path, e))
        path.cover('no endpoint')


@contract('C26', 'endpoints', MODULES)
def endpoints(path):
    s = Strings(path)
    v = fresh(path, 'str', 'value')
    pieces = endpoint_pieces(path, s)
    r, e = convert(path, new(path, M + ':Endpoint'), v)
    check_endpoint(path, s, pieces, r, e)


@contract('C26', 'viewer sources', MODULES)
def sources(path):
    s = Strings(path)
    v = fresh(path, 'str', 'value')
    pieces = endpoint_pieces(path, s)
    mode = fresh(path, 'int', 'mode')
    sock, reg = path.fresh('is socket', B), path.fresh('is file', B)
    path.assume(z3.Not(z3.And(sock, reg)))
    exists = path.choose(2, 'the file exists')
    stat = ref(path, STATRESULT, 'stat')

    def os_stat(p, a, k):
        p.check('the file named', eq(p, a[0], v))
        if not exists:
            raise p.interp.exc('OSError', 2, 'no such file')
        return stat

    def test(name, t):
        def f(p, a, k):
            if isinstance(a[0], int):
                return name == 'S_ISSOCK' and host_stat.S_ISSOCK(a[0]) or name == 'S_ISREG' and host_stat.S_ISREG(a[0])
            p.check('the mode of the file', eq(p, a[0], get(p, stat, 'st_mode')))
            return SV('bool', t)
        return f
    model(path, 'os.stat', os_stat)
    model(path, 'stat.S_ISSOCK', test('S_ISSOCK', sock))
    model(path, 'stat.S_ISREG', test('S_ISREG', reg))
    r, e = convert(path, new(path, M + ':ViewerSource'), v)
    if not exists:
        check_endpoint(path, s, pieces, r, e, lambda r: ('tcp', r))
    elif path.decide(sock):
        path.check('a socket', e is None and eq(path, r, ('sock', v)))
        path.cover('sock')
    elif path.decide(reg):
        path.check('a dump', e is None and eq(path, r, ('dump', v)))
        path.cover('dump')
    else:
        path.check('other files are rejected', rejected(path, e))
        path.cover('other')


STATRESULT = Kind('stat_result', {'st_mode': 'int'})


# --- commands ----------------------------------------------------------------------

@contract('C26', 'command aliases', MODULES)
def aliases(path):
    path.interp.loading = False
    cli = cls(path, M + ':cli')
    find = lambda n: call(path, get(path, cli, 'get_command'), None, n)
    for alias, name in (('live', 'live-profile'), ('remote', 'remote-profile'), ('timeit', 'timeit-profile'),
                        ('profile', 'profile'), ('view', 'view'), ('live-profile', 'live-profile'),
                        ('remote-profile', 'remote-profile'), ('timeit-profile', 'timeit-profile')):
        c = find(alias)
        path.check('%s is the command %s' % (alias, name), isinstance(c, PyObj) and c is lib.dict_get(path.interp, cli.d['commands'], name, None)
                   and c.d['name'] == name)
    for n, f in (('profile', 'profile'), ('live-profile', 'live_profile'), ('remote-profile', 'remote_profile'),
                 ('view', 'view'), ('timeit-profile', 'timeit_profile')):
        path.check('%s is the command of its function' % n, find(n) is cls(path, M + ':' + f))


@contract('C26', 'a command with aliases', MODULES)
def any_aliases(path):
    I = path.interp
    I.loading = False
    cli = new(path, M + ':ProfilingCLI', default='x')
    names = [fresh(path, 'str', n) for n in ('alias 1', 'alias 2', 'other alias')]
    a1, a2, a3 = names
    for i in range(3):
        for j in range(i):
            path.assume(z3.Not(eq(path, names[i], names[j])))
    f, g, h = [program(path, 'def main(): pass') for _ in range(3)]
    c1 = call(path, call(path, get(path, cli, 'command'), 'first', aliases=PyList((Unit(a1), Unit(a2)))), f)
    c2 = call(path, call(path, get(path, cli, 'command'), 'second', aliases=PyList((Unit(a3),))), g)
    c3 = call(path, call(path, get(path, cli, 'command'), 'third'), h)
    path.check('the commands are made', all(isinstance(c, PyObj) and c.d.get('callback') is x for c, x in ((c1, f), (c2, g), (c3, h))))
    asked = []

    def get_command(p, a, k):
        asked.append(a[2])
        return c1
    model(path, 'click_default_group.DefaultGroup.get_command', get_command)
    name = fresh(path, 'str', 'name')
    for x in names:
        path.assume(z3.Not(eq(path, x, 'first')))
    r = call(path, get(path, cli, 'get_command'), None, name)
    path.check('the command is looked up once', len(asked) == 1 and r is c1)
    if len(asked) != 1:
        return
    n = eq(path, asked[0], 'first')
    path.check('an alias names its command', z3.Implies(z3.Or(eq(path, name, a1), eq(path, name, a2)), n))
    path.check('each its own', z3.Implies(eq(path, name, a3), eq(path, asked[0], 'second')))
    path.check('another name is itself', z3.Implies(z3.Not(z3.Or([eq(path, name, x) for x in names])), eq(path, asked[0], name)))
    path.cover('aliases')


# --- configuration -------------------------------------------------------------------

class Config(object):
    """ConfigParser over two files with unknown contents"""
    FILES = ('setup.cfg', '.profiling')

    def __init__(self, path, section='profiling'):
        self.path, self.section = path, section
        path.interp.loading = False
        self.s = Strings(path)
        self.context = fresh(path, 'any', 'context')
        path.assume(z3.Not(eq(path, self.context, None)))
        self.state = 0              # changes when the files change
        self.values = {}            # (state, file, option) -> value or None
        self.missing = {}
        self.asked = []
        model(path, 'click.get_current_context', lambda p, a, k: self.context)
        for n in ('configparser.ConfigParser', 'six.moves.configparser.ConfigParser'):
            model(path, n, self.make)
            model(path, n + '.read', self.read)
            for m in ('get', 'getint', 'getfloat', 'getboolean'):
                model(path, n + '.' + m, self.getter(m))
            model(path, n + '.has_option', self.has_option)
        self.reads = []
        model(path, 'int', self.convert_int)
        model(path, 'float', self.convert_float)

    def make(self, path, a, k):
        methods = {'has_option': Builtin('has_option', lambda I, a, k: self.has_option(I.path, (o,) + tuple(a), k)),
                   'read': Builtin('read', lambda I, a, k: self.read(I.path, (o,) + tuple(a), k))}
        for m in ('get', 'getint', 'getfloat', 'getboolean'):
            methods[m] = Builtin(m, lambda I, a, k, f=self.getter(m): f(I.path, (o,) + tuple(a), k))
        o = PyObj(lib.object_class)
        o.d.update(methods)
        o.d['files'] = ()
        o.d['state'] = None
        return o

    def read(self, path, a, k):
        o, names = a[0], a[1]
        names = [p.v for p in seq_of(path, names)] if not isinstance(names, str) else [names]
        path.check('the configuration files', all(isinstance(n, str) and n in self.FILES for n in names))
        path.write(o, 'files', o.d['files'] + tuple(names))
        path.write(o, 'state', self.state)
        self.reads.append(o)

    def configured(self, state, file, option):
        """the text of an option in a file, if it is there"""
        key = (state, file, option)
        if key not in self.values:
            there = self.path.choose(2, '%s configures %s' % (file, option))
            self.values[key] = fresh(self.path, 'str', '%s in %s' % (option, file)) if there else None
            if there:
                self.path.hint('%s in %s' % (option, file), self.values[key])
        return self.values[key]

    def value(self, option, files=None, state=None):
        state = self.state if state is None else state
        for f in reversed(self.FILES if files is None else files):
            v = self.configured(state, f, option)
            if v is not None:
                return v

    def has_option(self, path, a, k):
        o, section, option = a[:3]
        path.check('the section of this program', eq(path, section, self.section))
        if not isinstance(option, str):
            raise Unsupported('an unknown option')
        return bool(o.d['files']) and self.value(option, o.d['files'], o.d['state']) is not None

    def getter(self, how):
        def f(path, a, k):
            o, section, option = a[:3]
            path.check('the section of this program', eq(path, section, self.section))
            if not isinstance(option, str):
                raise Unsupported('an unknown option')
            self.asked.append(option)
            v = self.value(option, o.d['files'], o.d['state']) if o.d['files'] else None
            if v is None:
                raise path.interp.exc(('NoOptionError', 'NoSectionError')[path.choose(2, 'no section')], option)
            if how == 'getint':
                return self.convert_int(path, (v,), {})
            if how == 'getfloat':
                return self.convert_float(path, (v,), {})
            if how == 'getboolean':
                raise Unsupported('getboolean')
            return v
        return f

    def convert_int(self, path, a, k):
        return self.s.int(path, a, k)

    def float_of(self, v):
        t = self.path.to_u(v)
        return uf('is a float', U, B)(t), uf('float of', U, REAL)(t)

    def convert_float(self, path, a, k):
        if not (isinstance(a[0], SV) and a[0].kind == 'str'):
            raise Unsupported('float')
        ok, v = self.float_of(a[0])
        i, n = self.s.number(a[0])
        path.add(z3.Implies(i, z3.And(ok, v == z3.ToReal(n))))
        if path.decide(ok):
            return SV('real', v)
        raise path.interp.exc('ValueError', 'could not convert')

    def as_type(self, t, v):
        """what click makes of a text or a value for a type"""
        path = self.path
        if isinstance(v, SV) and v.kind == 'str' or isinstance(v, str):
            if isinstance(t, PyObj) and t.cls.name == 'SignalNumber' and isinstance(v, SV):
                # the contract 'signals'
                return SV('int', self.s.number(v)[1]) if path.decide(uf('isdigit', U, B)(path.to_u(v))) else v
            if isinstance(t, PyClass) and t.name == 'int':
                return call(path, t, v)
            if isinstance(t, PyClass) and t.name == 'float':
                return call(path, t, v)
            if isinstance(t, PyObj) and isinstance(v, str):
                return call(path, get(path, t, 'convert'), v, None, None)
            return v
        if isinstance(t, PyClass) and t.name == 'int':
            return call(path, t, v)
        if isinstance(t, PyClass) and t.name == 'float':
            return call(path, t, v)
        return v


def check_default(path, c, f, option, t, default):
    got, e = attempt(path, lambda: c.as_type(t, call(path, f)))
    v = c.value(option)
    if v is None:
        want, e2 = attempt(path, lambda: c.as_type(t, default) if default is not None else None)
    else:
        want, e2 = attempt(path, lambda: c.as_type(t, v))
    if e2 is not None:
        path.check('what is not of the type of the option is rejected', rejected(path, e))
        path.cover('rejected')
    elif e is not None:
        path.check('a proper value is accepted', False)
    else:
        path.check('the configured value, or else the built-in one', got is want or got is not None and want is not None and eq(path, got, want))
        path.cover('accepted')


OPTIONS = [('profiler_options', '--timer', 'timer', lambda p: 'basic'),
           ('profiler_options', '--sampler', 'sampler', lambda p: 'itimer'),
           ('profiler_options', '--sampling-interval', 'sampling-interval',
            lambda p: cls(p, 'profiling.sampling.samplers:INTERVAL')),
           ('profiler_options', '--pickle-protocol', 'pickle-protocol', lambda p: cls(p, 'profiling.remote:PICKLE_PROTOCOL')),
           ('live_profiler_options', '--interval', 'interval', lambda p: cls(p, 'profiling.remote:INTERVAL')),
           ('live_profiler_options', '--spawn', 'spawn', lambda p: None),
           ('live_profiler_options', '--signum', 'signum',
            lambda p: cls(p, 'profiling.remote.background:BackgroundProfiler.signum'))]


def option_contract(deco, name, key, default):
    @contract('C26', 'the default of %s' % name, MODULES)
    def option_default(path):
        c = Config(path)
        o = option(path, deco, name)
        t = o.d.get('k_type')
        f = o.d.get('k_default')
        enum = PyClass('Signals', [lib.builtins['int']], {}) if name == '--signum' else None
        model(path, 'type', lambda p, a, k: enum if enum and a[0] == default(p) and isinstance(a[0], int) else NotImplemented)
        check_default(path, c, f, key, t, default(path))


for _o in OPTIONS:
    option_contract(*_o)


@contract('C26', 'the default of the addresses', MODULES)
def address_default(path):
    c = Config(path)
    name = ('view', 'remote-profile')[path.choose(2, 'command')]
    cmd = lib.dict_get(path.interp, cls(path, M + ':cli').d['commands'], name, None)
    ps = [p.v for p in cmd.d['params'].d['seq'] if {'src', 'endpoint'} & set(p.v.d['decls'])] if cmd is not None else []
    if len(ps) != 1:
        raise Unsupported('no address of the command %s' % name)
    got = call(path, ps[0].d['k_default'])
    v = c.value('endpoint')
    want = '127.0.0.1:8912' if v is None else v
    path.check('the configured address, or else the built-in one', eq(path, got, want))
    t = ps[0].d['k_type']
    path.check('of the type for addresses', isinstance(t, PyObj) and t.cls is cls(path, M + (':ViewerSource' if name == 'view' else ':Endpoint')))
    path.cover('address')


@contract('C26', 'config_default', MODULES)
def any_default(path):
    """of any option, type and default, in two contexts"""
    c = Config(path, 'profiling')
    I = path.interp
    kind = path.choose(4, 'type')
    t = (None, lib.builtins['int'], lib.builtins['float'], lib.builtins['str'])[kind]
    given = path.choose(2, 'the type is given')
    default = (fresh(path, 'str', 'default'), fresh(path, 'int', 'default'), fresh(path, 'real', 'default'),
               fresh(path, 'str', 'default'))[kind] if not given or path.choose(2, 'there is a default') else None
    args = {'type': t} if given else {}
    f = call(path, cls(path, M + ':config_default'), 'some-option', default, **args)
    for round in range(2):
        got, e = attempt(path, lambda: call(path, f))
        v = c.value('some-option')
        if v is None:
            path.check('the built-in default', e is None and (got is default or default is not None and eq(path, got, default)))
        else:
            want, e2 = attempt(path, lambda: c.as_type(t, v) if kind in (1, 2) else v)
            if e2 is not None:
                path.check('what is not of the type is rejected', is_exc(path, e, 'ValueError'))
            else:
                path.check('the configured value in the type', e is None and eq(path, got, want))
        if round:
            path.check('the files are read again in another context', len(c.reads) >= 2)
        # another run of the program
        c.context = fresh(path, 'any', 'context')
        path.assume(z3.Not(eq(path, c.context, None)))
        c.state += 1
        path.assume(different(path, c))
    path.cover('two contexts')


def different(path, c):
    seen = getattr(c, 'contexts', [])
    now = path.to_u(c.context)
    out = [now != x for x in seen]
    if not seen:
        first = [x for x in path.interp.modules[M].d['read_config'].d.get('ctx_and_config', (None, None))[:1]]
        out = [now != path.to_u(x) for x in first if x is not None]
    c.contexts = seen + [now]
    return z3.And(*out) if out else z3.BoolVal(True)


@contract('C26', 'config_flag', MODULES)
def any_flag(path):
    c = Config(path)
    value = fresh(path, 'str', 'value')
    default = bool(path.choose(2, 'default'))
    x = call(path, cls(path, M + ':config_flag'), 'some-option', value, default)
    r = path.interp.truth(x) if hasattr(path.interp, 'truth') else path.interp.truth_term(x)
    v = c.value('some-option')
    r = zb(r)
    if v is None:
        path.check('the built-in default', r == z3.BoolVal(default))
        path.cover('default')
    else:
        path.check('on if the value is configured', r == eq(path, v, value))
        path.cover('configured')


FLAGS = [('--tracing', 'tracing', True, 'profiling.tracing:TracingProfiler'),
         ('--sampling', 'sampling', False, 'profiling.sampling:SamplingProfiler')]


@contract('C26', 'the profiler flags', MODULES)
def profiler_flags(path):
    c = Config(path)
    on = []
    for name, value, default, klass in FLAGS:
        o = option(path, 'profiler_options', name)
        path.check('both flags choose the profiler', 'import_profiler_class' in o.d['decls'])
        got = call(path, o.d['k_flag_value'])
        path.check('the flag selects its profiler', got is cls(path, klass))
        on.append(zb(path.interp.truth_term(o.d['k_default'])))
    # click takes the first flag which is on; parameters are collected from the last
    if list(declared(path, 'profiler_options')).index('--tracing') < list(declared(path, 'profiler_options')).index('--sampling'):
        tracing, sampling = z3.And(on[0], z3.Not(on[1])), on[1]
    else:
        tracing, sampling = on[0], z3.And(on[1], z3.Not(on[0]))
    v = c.value('profiler')
    if v is None:
        path.check('tracing is the default', z3.And(tracing, z3.Not(sampling)))
        path.cover('default')
    else:
        path.check('the configured profiler', z3.And(tracing == eq(path, v, 'tracing'), sampling == eq(path, v, 'sampling')))
        path.cover('configured')


# --- the profiler --------------------------------------------------------------------

SUB = '''
def main(Tracing, Sampling, Plain, Timer, Sampler):
    class T(Tracing): pass
    class S(Sampling): pass
    class P(Plain): pass
    class Clock(Timer): pass
    class Sam(Sampler):
        pass
    return T, S, P, Clock, Sam
'''


@contract('C26', 'the profiler that is built', MODULES)
def profiler_built(path):
    I = path.interp
    I.loading = False
    q = lambda n: cls(path, n)
    T, S, P, Clock, Sam = call(path, program(path, SUB), q('profiling.tracing:TracingProfiler'),
                               q('profiling.sampling:SamplingProfiler'), q('profiling.profiler:Profiler'),
                               q('profiling.tracing.timers:Timer'), q('profiling.sampling.samplers:Sampler'))
    classes = [q('profiling.tracing:TracingProfiler'), q('profiling.sampling:SamplingProfiler'), T, S, P]
    klass = classes[path.choose(len(classes), 'profiler')]
    timers = [None, q('profiling.tracing.timers:Timer'), q('profiling.tracing.timers:ThreadTimer'), Clock]
    samplers = [None, q('profiling.sampling.samplers:ItimerSampler'), q('profiling.sampling.samplers:TracingSampler'), Sam]
    timer, sampler = timers[path.choose(4, 'timer')], samplers[path.choose(4, 'sampler')]
    interval = fresh(path, 'real', 'interval')
    got = []

    def command(I, a, k):
        got.append((a, dict(k)))
        return 'the answer'
    f = program(path, 'def main(f):\n    def g(*args, **kwargs): return f(*args, **kwargs)\n    return g')
    g = call(path, cls(path, M + ':profiler_options'), call(path, f, Builtin('command', command)))
    r = call(path, g, import_profiler_class=Builtin('import', lambda I, a, k: klass), timer_class=timer, sampler_class=sampler,
             sampling_interval=interval, pickle_protocol=7, other='x')
    path.check('the command runs once', len(got) == 1 and eq(path, r, 'the answer'))
    if len(got) != 1:
        return
    a, k = got[0]
    factory = k.pop('profiler_factory', None)
    path.check('the other options are passed on', not a and k == {'pickle_protocol': 7, 'other': 'x'})
    frame, code = ref(path, FRAME, 'frame'), ref(path, CODE, 'code')
    p = call(path, factory, base_frame=frame, base_code=code)
    path.check('the profiler is of the selected class', isinstance(p, PyObj) and p.cls is klass)
    path.check('for the program', get(path, p, 'base_frame') is frame and get(path, p, 'base_code') is code)
    if klass.issub(q('profiling.tracing:TracingProfiler')):
        want = timer if timer is not None else q('profiling.tracing:TIMER_CLASS')
        t = get(path, p, 'timer')
        path.check('with a timer of the selected class', isinstance(t, PyObj) and t.cls is want)
        path.cover('tracing')
    elif klass.issub(q('profiling.sampling:SamplingProfiler')):
        want = sampler if sampler is not None else q('profiling.sampling:SAMPLER_CLASS')
        s = get(path, p, 'sampler')
        path.check('with a sampler of the selected class', isinstance(s, PyObj) and s.cls is want)
        path.check('at the selected interval', eq(path, get(path, s, 'interval'), interval))
        path.cover('sampling')
    else:
        path.cover('plain')


@contract('C26', 'spawn', MODULES)
def spawns(path):
    I = path.interp
    I.loading = False
    mode = (None, 'threading', 'gevent', 'eventlet', 'other')[path.choose(5, 'mode')]
    if mode == 'other':
        mode = fresh(path, 'str', 'mode')
        for m in ('threading', 'gevent', 'eventlet', ''):
            path.assume(z3.Not(eq(path, mode, m)))
    threads, spawned = [], []
    Thread = call(path, program(path, '''
        def main(log):
            class Thread(object):
                def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
                    self.target, self.args, self.kwargs, self.daemon = target, args, kwargs, daemon
                def start(self):
                    log(self, self.daemon)
                def setDaemon(self, daemon):
                    self.daemon = daemon
            return Thread
    '''), Builtin('log', lambda I, a, k: threads.append(tuple(a))))
    model(path, 'threading.Thread', lambda p, a, k: p.interp.call(Thread, a, k))
    for n in ('gevent', 'eventlet'):
        model(path, n + '.spawn', lambda p, a, k, n=n: spawned.append((n, a[0], tuple(a[1:]), dict(k))))
    for n in ('gevent.monkey.patch_select', 'gevent.monkey.patch_socket', 'eventlet.patcher.monkey_patch'):
        model(path, n, lambda p, a, k: None)
    func = Builtin('func', lambda I, a, k: None)
    x, y = fresh(path, 'any', 'x'), fresh(path, 'any', 'y')
    callback = path.choose(2, 'over the option')
    target = cls(path, M + ':spawn')
    if callback:
        target = call(path, option(path, 'live_profiler_options', '--spawn').d['k_callback'], None, None, mode)
        _, e = attempt(path, lambda: call(path, target, func, x, key=y))
    else:
        _, e = attempt(path, lambda: call(path, target, mode, func, x, key=y))
    if mode in (None, 'threading'):
        ok = e is None and len(threads) == 1 and not spawned
        path.check('one thread', ok)
        if ok:
            t = threads[0][0]
            path.check('a daemon', threads[0][1] is True)
            path.check('which runs the function', t.d['target'] is func and eq(path, t.d['args'], (x,)))
            kw = t.d['kwargs']
            path.check('with its arguments', isinstance(kw, PyDict) and eq(path, lib.dict_get(I, kw, 'key', None), y))
        path.cover('thread')
    elif mode in ('gevent', 'eventlet'):
        ok = e is None and len(spawned) == 1 and not threads
        path.check('one greenlet', ok)
        if ok:
            n, f, a, k = spawned[0]
            path.check('of the module named', n == mode)
            path.check('which runs the function', f is func and len(a) == 1 and a[0] is x and k == {'key': y})
        path.cover('greenlet')
    else:
        path.check('other modes are rejected', rejected(path, e) and not threads and not spawned)
        path.cover('rejected')
