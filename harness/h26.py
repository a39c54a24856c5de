"""C26: the real command line and its parameter types."""
import os
import shutil
import signal
import socket
import sys
import tempfile
import threading
import time
import types
import click
from profiling import __main__ as M
from profiling import remote, sampling, tracing
from profiling.profiler import Profiler
from profiling.remote.background import BackgroundProfiler
from profiling.sampling import samplers, SamplingProfiler
from profiling.tracing import timers, TracingProfiler

RULE = ('random settings in .profiling and setup.cfg (each option in one, both, or none of them, well or badly typed, also in '
        'other sections) with and without command-line options, in a row of runs within one process; random strings around '
        'the names of classes, signals, endpoints, files and commands; distinct = different settings and arguments, or '
        'different strings')
SIGNALS = {n: int(getattr(signal, n)) for n in dir(signal) if n.startswith('SIG') and not n.startswith('SIG_')}


class Scratch(object):

    def __enter__(self):
        self.cwd, self.argv, self.path = os.getcwd(), list(sys.argv), list(sys.path)
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix='h26-'))
        os.chdir(self.dir)
        return self

    def write(self, name, text):
        with open(os.path.join(self.dir, name), 'w') as f:
            f.write(text)

    def __exit__(self, *exc):
        os.chdir(self.cwd)
        sys.argv[:] = self.argv
        sys.path[:] = self.path
        shutil.rmtree(self.dir)


def attempt(f, *args):
    try:
        return f(*args), None
    except Exception as e:
        return None, e


def taken(text):
    """what int() and float() make of a text, or None"""
    return attempt(int, text)[0], attempt(float, text)[0]


def is_signal(text):
    """-> the number a text names, or None"""
    if text.isdigit():
        return int(text)
    return SIGNALS.get(text.upper(), SIGNALS.get('SIG' + text.upper()))


TIMERS = {'basic': timers.Timer, 'thread': timers.ThreadTimer, 'greenlet': timers.GreenletTimer, 'contextual': timers.ContextualTimer}
SAMPLERS = {'itimer': samplers.ItimerSampler, 'tracing': samplers.TracingSampler}

#: option -> (name in the configuration, built-in default, text -> value or None)
OPTIONS = {
    '--timer': ('timer', lambda: timers.Timer, lambda t: TIMERS.get(t.lower()) if t != 'Basic' else None),
    '--sampler': ('sampler', lambda: samplers.ItimerSampler, lambda t: SAMPLERS.get(t.lower())),
    '--sampling-interval': ('sampling-interval', lambda: samplers.INTERVAL, lambda t: taken(t)[1]),
    '--pickle-protocol': ('pickle-protocol', lambda: remote.PICKLE_PROTOCOL, lambda t: taken(t)[0]),
    '--interval': ('interval', lambda: remote.INTERVAL, lambda t: taken(t)[1]),
    '--spawn': ('spawn', lambda: 'threading', lambda t: t if t in ('threading', 'gevent', 'eventlet') else None),
    '--signum': ('signum', lambda: BackgroundProfiler.signum, is_signal),
}
VALUES = {
    '--timer': ['basic', 'thread', 'greenlet', 'Thread', 'GREENLET', 'foo', 'itimer', 'runnable', 'timer'],
    '--sampler': ['itimer', 'tracing', 'Itimer', 'TRACING', 'foo', 'basic'],
    '--sampling-interval': ['0.5', '2', '1e-3', 'x', '0.25', '7', '0', '1e-6', '1000'],
    '--pickle-protocol': ['0', '1', '2', 'x', '1.5', '4', '007', '-1'],
    '--interval': ['0.5', '2', '1e-3', 'x', '10', '0.125', '0', '1000'],
    '--spawn': ['threading', 'gevent', 'eventlet', 'foo', 'Threading'],
    '--signum': ['12', 'SIGUSR1', 'usr2', 'sighup', 'foo', 'SIG_DFL', '10', 'Int', '010', '0'],
}
got = []


def command():
    @click.command()
    @M.profiler_options
    @M.live_profiler_options
    def cmd(**kwargs):
        got.append(kwargs)
    return cmd


def run(cmd, args):
    del got[:]
    try:
        cmd.main(list(args), prog_name='x', standalone_mode=False)
    except BaseException as e:
        return None, e
    return (got[0], None) if len(got) == 1 else (None, RuntimeError('ran %d times' % len(got)))


def write_settings(rng, s, names, plain=False):
    """-> configured text per option"""
    files = {'setup.cfg': {}, '.profiling': {}}
    for n in names:
        for f in files:
            if rng.random() < .3:
                key = OPTIONS[n][0] if n in OPTIONS else n.strip('-')
                vs = VALUES.get(n, ['tracing', 'sampling', 'tracing', 'sampling', 'other', 't', 'Sampling'])
                good = [v for v in vs if n not in OPTIONS or OPTIONS[n][2](v) is not None]
                files[f][key] = rng.choice(good if plain or rng.random() < .9 else vs)
    for f, d in files.items():
        if os.path.exists(f):
            os.remove(f)
        if d or rng.random() < .5:
            text = ''
            if rng.random() < .3:
                text += '[other]\n' + ''.join('%s = 3\n' % k for k in ('interval', 'signum', 'timer', 'profiler'))
            if d or rng.random() < .5:
                text += '[profiling]\n' + ''.join('%s=%s\n' % kv for kv in d.items())
            if rng.random() < .3:
                text += '[metadata]\nname = x\n'
            s.write(f, text)
    return dict(files['setup.cfg'], **files['.profiling']), files


def settings(H):
    rng = H.rng
    names = sorted(OPTIONS)
    cmd = command()
    with Scratch() as s:
        for n in range(1600 if H.thorough else 500):
            if not H.time_left():
                break
            some = rng.sample(names, rng.randint(1, len(names)))
            conf, files = write_settings(rng, s, some + ['--profiler'])
            if rng.random() < .3:
                cmd = command()
            args, given = [], {}
            for o in rng.sample(names, rng.randint(0, 3)):
                v = rng.choice([v for v in VALUES[o] if OPTIONS[o][2](v) is not None] if rng.random() < .9 else VALUES[o])
                given[o] = v
                args += [o, v]
            flag = rng.choice([None, None, '-T', '-S', '--tracing', '--sampling'])
            if flag:
                args.append(flag)
            inp = (files, args)
            H.case(inp)
            want, bad = {}, False
            for o in names:
                text = given.get(o, conf.get(OPTIONS[o][0]))
                want[o] = OPTIONS[o][1]() if text is None else OPTIONS[o][2](text)
                bad = bad or want[o] is None
            bad = bad or not flag and conf.get('profiler', 'tracing') not in ('tracing', 'sampling')
            r, e = run(cmd, args)
            if bad:
                H.expect(e is not None and not got, 'a value that names nothing is accepted', inp)
                continue
            if not H.expect(e is None, 'rejected: %r' % (e,), inp):
                continue
            check_profiler(H, r, flag, conf, want, inp)


def check_profiler(H, r, flag, conf, want, inp):
    name = {'-T': 'tracing', '-S': 'sampling', '--tracing': 'tracing', '--sampling': 'sampling', None: conf.get('profiler', 'tracing')}[flag]
    frame, code = sys._getframe(), command.__code__
    ok, p = H.attempt('making the profiler', inp, r['profiler_factory'], base_frame=frame, base_code=code)
    if not ok:
        return
    H.equal(type(p), {'tracing': TracingProfiler, 'sampling': SamplingProfiler}[name], 'the profiler', inp)
    H.expect(p.base_frame is frame and p.base_code is code, 'the frame and code of the program are lost', inp)
    if isinstance(p, TracingProfiler):
        H.equal(type(p.timer), want['--timer'], 'the timer', inp)
        p2 = r['profiler_factory'](base_frame=frame, base_code=code)
        H.equal(type(p2.timer), want['--timer'], 'the timer of another profiler', inp)
    elif isinstance(p, SamplingProfiler):
        H.equal(type(p.sampler), want['--sampler'], 'the sampler', inp)
        H.equal(p.sampler.interval, want['--sampling-interval'], 'the sampling interval', inp)
    H.equal((r['pickle_protocol'], type(r['pickle_protocol'])), (want['--pickle-protocol'], int), 'the protocol', inp)
    H.equal((r['interval'], float(r['interval'])), (want['--interval'],) * 2, 'the interval', inp)
    H.equal(r['signum'], want['--signum'], 'the signal', inp)
    H.equal(set(r), {'profiler_factory', 'pickle_protocol', 'interval', 'signum', 'spawn'}, 'the options', inp)
    mode = want['--spawn']
    if mode == 'threading':
        seen, done = [], threading.Event()

        def f(*a, **k):
            seen.append((a, k, threading.current_thread()))
            done.set()
        ok, t = H.attempt('spawning', inp, r['spawn'], f, 1, x=2)
        done.wait(5)
        if H.expect(len(seen) == 1, 'the spawned function is not run', inp):
            H.equal(seen[0][:2], ((1,), {'x': 2}), 'the arguments of the spawned function', inp)
            H.expect(seen[0][2] is not threading.current_thread() and seen[0][2].daemon, 'not in a daemon thread', inp)


def modes(H):
    """the modes of spawn over stand-ins of gevent and eventlet"""
    names = ['gevent', 'gevent.monkey', 'eventlet', 'eventlet.patcher']
    saved = {n: sys.modules.get(n) for n in names}
    calls = []
    try:
        for lib in ('gevent', 'eventlet'):
            m = types.ModuleType(lib)
            m.spawn = lambda f, *a, **k: calls.append((f.__globals__ and lib_of(f), f, a, k))
            m.spawn = (lambda lib: lambda f, *a, **k: calls.append((lib, f, a, k)))(lib)
            sub = types.ModuleType(lib + ('.monkey' if lib == 'gevent' else '.patcher'))
            for n in ('patch_select', 'patch_socket', 'monkey_patch'):
                setattr(sub, n, lambda *a, **k: None)
            setattr(m, sub.__name__.split('.')[1], sub)
            sys.modules[lib], sys.modules[sub.__name__] = m, sub
        f = lambda *a, **k: calls.append(('thread', f, a, k))
        for mode in ('gevent', 'eventlet', 'threading', None, 'greenlet', 'Gevent', 'x', 'thread', 'Threading', 'THREADING', 'eventlet '):
            for args, kwargs in (((), {}), ((1, 2), {'x': 3})):
                del calls[:]
                H.case((mode, args, kwargs))
                r, e = attempt(lambda: M.spawn(mode, f, *args, **kwargs))
                if mode in (None, 'threading'):
                    if H.expect(e is None and isinstance(r, threading.Thread), 'no thread: %r %r' % (r, e), mode):
                        H.expect(r.daemon, 'no daemon', mode)
                        r.join(5)
                    H.equal(calls, [('thread', f, args, kwargs)], 'calls', mode)
                elif mode in ('gevent', 'eventlet'):
                    H.equal((calls, e), ([(mode, f, args, kwargs)], None), 'calls', mode)
                else:
                    H.expect(e is not None and not calls, 'an unknown mode is accepted', mode)
    finally:
        for n, m in saved.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m


class Base(object):
    pass


def classes(H):
    """Class over modules of our own"""
    rng = H.rng
    stems = ['foo', 'Bar', 'FOOBAR', 'x', 'foo_bar', 'a1b', 'one two', 'timer', 'base', 'plain']
    for n in range(600 if H.thorough else 200):
        base = type(rng.choice(['Timer', 'Kind']), (object,), {})
        modules, postfix = [], rng.random() < .7
        for i in range(rng.randint(1, 3)):
            m = types.ModuleType('m%d' % i)
            for stem in rng.sample(stems, rng.randint(0, 5)):
                name = stem.title() + (base.__name__ if rng.random() < .7 else '')
                kind = rng.randint(0, 4)
                setattr(m, name, [type(name, (base,), {}), type(name, (base,), {}), type(name, (object,), {}), base(), 'x'][kind])
            modules.append(m)
        base_name = rng.choice([None, 'basic', 'foo'])
        t = M.Class(modules, base, base_name, postfix)
        for value in stems + ['', 'basic', 'Foo', 'nothing', 'fooTimer', 'foo' + base.__name__]:
            inp = ([{k: repr(v) for k, v in vars(m).items() if not k.startswith('__')} for m in modules], base.__name__, base_name, postfix, value)
            H.case(inp)
            name = value.title() + (base.__name__ if postfix else '')
            want = None
            if value == base_name:
                want = base
            else:
                for m in modules:
                    c = vars(m).get(name)
                    if isinstance(c, type) and issubclass(c, base):
                        want = c
                        break
            r, e = attempt(t.convert, value, None, None)
            if want is None:
                H.expect(e is not None, '%r is accepted as %r' % (value, r), inp)
            else:
                H.expect(e is None and r is want, '%r names %r, not %r (%r)' % (value, want, r, e), inp)


def signals(H):
    rng = H.rng
    t = M.SignalNumber()
    words = sorted(SIGNALS) + ['', 'SIG', 'SIG_DFL', 'SIG_IGN', 'SIG_BLOCK', '_DFL', 'foo', 'SIGFOO', '0', '12', '007', '010', '0012', '-1', '1.5',
                               'signal', 'getsignal', 'SIGSIGINT', 'default_int_handler', ' INT', 'INT ', 'ITIMER_REAL', 'nals', 'Handlers']
    for w in words:
        for v in {w, w.lower(), w.upper(), w.title(), w[3:] if w.startswith('SIG') else w, w[3:].lower() if w.startswith('SIG') else w}:
            H.case(v)
            if v.isdigit():
                want = int(v)
            else:
                u = v.upper()
                want = SIGNALS.get(u if u.startswith('SIG') else 'SIG' + u)
            r, e = attempt(t.convert, v, None, None)
            if want is None:
                H.expect(e is not None, '%r is accepted as %r' % (v, r), v)
            else:
                H.expect(e is None and r == want, '%r names %r, not %r (%r)' % (v, want, r, e), v)
    for n in list(SIGNALS.values()) + [0, 1, 64, 1000, signal.SIGINT]:
        H.case(n)
        r, e = attempt(t.convert, n, None, None)
        H.expect(e is None and r == n, 'the number %r becomes %r (%r)' % (n, r, e), n)


def endpoints(H):
    rng = H.rng
    words = ['localhost', '127.0.0.1', '', 'a.b.c', '80', 'x y', '::1', 'h-1']
    ports = ['80', '8912', '0', '65536', '', 'x', '-1', '1.5', '80x', '0x50', ' 7', '007']
    for n in range(800 if H.thorough else 300):
        parts = [rng.choice(words)] + [rng.choice(ports) for _ in range(rng.choice([0, 1, 1, 1, 2]))]
        v = ':'.join(parts)
        check_endpoint(H, v)
    with Scratch():
        for n in range(800 if H.thorough else 300):
            parts = [rng.choice(words)] + [rng.choice(ports) for _ in range(rng.choice([0, 1, 1, 1, 2]))]
            v = ':'.join(parts)
            H.case(('source', v))
            r, e = attempt(M.ViewerSource().convert, v, None, None)
            want = endpoint_of(v)
            if want is None:
                H.expect(e is not None, 'the source %r is accepted as %r' % (v, r), v)
            else:
                H.expect(e is None and r == ('tcp', want), 'the source %r is %r, not %r (%r)' % (v, ('tcp', want), r, e), v)


def endpoint_of(v):
    pieces = v.split(':')
    if len(pieces) == 2 and taken(pieces[1])[0] is not None:
        return pieces[0], int(pieces[1])


def check_endpoint(H, v):
    H.case(v)
    want = endpoint_of(v)
    r, e = attempt(M.Endpoint().convert, v, None, None)
    if want is None:
        H.expect(e is not None, 'the endpoint %r is accepted as %r' % (v, r), v)
    else:
        H.expect(e is None and r == want and isinstance(r, tuple), 'the endpoint %r is %r, not %r (%r)' % (v, want, r, e), v)


def sources(H):
    """files of all kinds, over the command `view` and its type"""
    socks = []
    with Scratch() as s:
        s.write('plain', 'x')
        s.write('a:80', 'x')
        s.write('empty', '')
        os.mkdir('dir')
        os.mkdir('d:81')
        os.mkfifo('fifo')
        os.symlink('plain', 'link')
        os.symlink('nowhere', 'x:82')
        s.write('dir/x', '')
        os.symlink('dir', 'dirlink')
        for n in ('sock', 'b:90'):
            k = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
            k.bind(n)
            socks.append(k)
        os.symlink('sock', 'socklink')
        want = {'plain': 'dump', 'a:80': 'dump', 'empty': 'dump', 'link': 'dump', 'dir/x': 'dump', 'sock': 'sock', 'b:90': 'sock',
                'socklink': 'sock', 'dir': None, 'd:81': None, 'fifo': None, 'dirlink': None, '.': None, '/dev/null': None,
                'x:82': 'tcp', 'missing': None, 'missing:1': 'tcp', 'dir/y': None, 'plain/x': None, 'dir/y:2': 'tcp', '': None}
        for v, kind in want.items():
            for conv in (lambda v: M.ViewerSource().convert(v, None, None),
                         lambda v: M.view.make_context('view', [v]).params['src']):
                for w in {v, os.path.abspath(v) if kind in ('dump', 'sock') else v}:
                    H.case((w, kind))
                    r, e = attempt(conv, w)
                    if kind is None:
                        H.expect(e is not None, 'the source %r is accepted as %r' % (w, r), w)
                    else:
                        target = w if kind != 'tcp' else endpoint_of(w)
                        H.expect(e is None and tuple(r) == (kind, target), 'the source %r is %r, not %r (%r)' % (w, (kind, target), r, e), w)
        for k in socks:
            k.close()


def addresses(H):
    """the defaults of the addresses of `view` and `remote-profile`"""
    rng = H.rng
    with Scratch() as s:
        s.write('prog.py', '')
        for n in range(200 if H.thorough else 80):
            files = {}
            for f in ('setup.cfg', '.profiling'):
                if os.path.exists(f):
                    os.remove(f)
                if rng.random() < .6:
                    v = rng.choice(['h1:1', 'h2:22', 'localhost:80', 'bad', 'x:y', 'prog.py'])
                    files[f] = v
                    s.write(f, '[%s]\nendpoint = %s\n' % ('profiling' if rng.random() < .8 else 'other', v))
                    if not open_text(f).startswith('[profiling]'):
                        del files[f]
            conf = files.get('.profiling', files.get('setup.cfg'))
            given = rng.choice([None, None, 'host:7', 'b:x'])
            text = given or conf or '127.0.0.1:8912'
            inp = (files, given)
            H.case(inp)
            want = endpoint_of(text)
            r, e = attempt(lambda: M.remote_profile.make_context('remote', (['--bind', given] if given else []) + ['prog.py']).params['endpoint'])
            if want is None:
                H.expect(e is not None, 'the address %r is accepted as %r' % (text, r), inp)
            else:
                H.expect(e is None and r == want, 'the address %r is %r, not %r (%r)' % (text, want, r, e), inp)
            want = ('dump', text) if text == 'prog.py' else want and ('tcp', want)
            r, e = attempt(lambda: M.view.make_context('view', [given] if given else []).params['src'])
            if want is None:
                H.expect(e is not None, 'the source %r is accepted as %r' % (text, r), inp)
            else:
                H.expect(e is None and tuple(r) == want, 'the source %r is %r, not %r (%r)' % (text, want, r, e), inp)


def open_text(f):
    with open(f) as h:
        return h.read()


def aliases(H):
    real = {'live': 'live-profile', 'remote': 'remote-profile', 'timeit': 'timeit-profile'}
    ctx = click.Context(M.cli)
    names = ['profile', 'live-profile', 'remote-profile', 'timeit-profile', 'view']
    for n in names + sorted(real):
        H.case(n)
        c, e = attempt(M.cli.get_command, ctx, n)
        H.expect(e is None and c is not None and c is M.cli.commands[real.get(n, n)] and c.name == real.get(n, n),
                 '%r is the command %r (%r)' % (n, c, e), n)
    default = M.cli.get_command(click.Context(M.cli), 'no command')
    for n in ('LIVE', 'Live', 'liv', 'live_profile', 'lives', '', 'live ', 'View', 'timeit_profile', 'default'):
        H.case(n)
        c, e = attempt(M.cli.get_command, click.Context(M.cli), n)
        H.expect(e is None and c is default, '%r is the command %r (%r)' % (n, c, e), n)
    for n, f in (('profile', M.profile), ('live', M.live_profile), ('remote', M.remote_profile), ('view', M.view), ('timeit', M.timeit_profile)):
        H.expect(M.cli.get_command(ctx, n) is f, 'another command under the name %s' % n, n)
    # of our own
    rng = H.rng
    for n in range(200 if H.thorough else 60):
        words = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'A', 'B', 'aa', 'a-b', 'a_b', 'first', 'firstly']
        rng.shuffle(words)

        @click.command('x', cls=M.ProfilingCLI, default=words[0])
        def g():
            pass
        made, plan = {}, []
        used = 0
        while used < len(words):
            name, k = words[used], rng.choice([None, 0, 1, 2])
            al = words[used + 1:used + 1 + (k or 0)]
            used += 1 + len(al)
            dec = g.command(name) if k is None else g.command(name, aliases=al)
            c = dec(lambda: None)
            plan.append((name, al))
            for w in [name] + al:
                made[w] = c
        H.case(plan)
        for w in words:
            c, e = attempt(g.get_command, click.Context(g), w)
            H.expect(e is None and c is made[w], '%r is the command %r (%r)' % (w, c, e), (plan, w))


def helpers(H):
    """config_default and config_flag"""
    rng = H.rng
    flags = []
    with Scratch() as s:
        for n in range(600 if H.thorough else 250):
            if not H.time_left():
                break
            files = {}
            for f in ('setup.cfg', '.profiling'):
                if os.path.exists(f):
                    os.remove(f)
                if rng.random() < .6:
                    files[f] = {k: rng.choice(['1', '2.5', 'x', '0', '10', 'a b']) for k in rng.sample(['p', 'q', 'r-s'], rng.randint(0, 3))}
                    s.write(f, '[profiling]\n' + ''.join('%s = %s\n' % kv for kv in files[f].items()))
            conf = dict(files.get('setup.cfg', {}), **files.get('.profiling', {}))
            with click.Context(M.cli):
                for k in ('p', 'q', 'r-s'):
                    for default in (None, 3, 1.5, 'd', 0, ''):
                        for t in (None, int, float, str):
                            args = (k, default) if t is None else (k, default, t)
                            H.case((files, args))
                            kind = t or (type(default) if default is not None else str)
                            r, e = attempt(M.config_default(*args))
                            if k not in conf:
                                H.expect(e is None and r == default and type(r) == type(default), 'the default %r is %r (%r)' % (default, r, e), (files, args))
                            else:
                                want, e2 = attempt(kind, conf[k])
                                if e2:
                                    H.expect(e is not None, '%r of type %r is %r' % (conf[k], kind, r), (files, args))
                                else:
                                    H.expect(e is None and r == want and type(r) == type(want), '%r of type %r is %r (%r)' % (conf[k], kind, r, e), (files, args))
                    for v in ('1', '10', '100', 'x', 'X', 'a b', 'a', '2.5'):
                        for d in (True, False):
                            H.case((files, k, v, d))
                            ok, r = H.attempt('config_flag', (files, k, v, d), lambda: bool(M.config_flag(k, v, d)))
                            if ok:
                                H.equal(r, conf[k] == v if k in conf else d, 'config_flag', (files, k, v, d))


SECTIONS = [settings, modes, classes, signals, endpoints, sources, addresses, aliases, helpers]
