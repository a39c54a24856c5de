"""C25: programs run by the real command line in scratch directories."""
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import types
import urwid
from datetime import datetime
from profiling import __main__ as M
from profiling.profiler import Profiler
from profiling.sampling import samplers, SamplingProfiler
from profiling.tracing import TracingProfiler
from profiling.viewer import StatisticsViewer

RULE = ('random programs (functions, arguments, nested calls) which end by returning, raising, exiting, an interrupt, or after '
        'changing the directory or sys.argv, given as a file, a module, a command or a timeit statement, with and without a '
        'dump file, for both profilers and all pickle protocols; dumps viewed again; distinct = different program and options')
REPO = os.environ.get('PROFILING_REPO', '/repo')
ENDS = {
    'returns': '',
    'raises': 'raise ValueError("x")',
    'exits': 'import sys; sys.exit(3)',
    'exits quietly': 'raise SystemExit',
    'is interrupted': 'raise KeyboardInterrupt',
    'raises GeneratorExit': 'raise GeneratorExit',
    'raises a base exception': 'class E(BaseException): pass\nraise E("x")',
    'fails inside': 'def fails():\n    1 / 0\nfails()',
    'fails deep inside': 'def a(n):\n    if n: a(n - 1)\n    else: {}["x"]\na(5)',
    'changes the directory': 'import os; os.chdir(sink.elsewhere)',
    'changes the directory and fails': 'import os; os.chdir(sink.elsewhere); raise ValueError',
    'changes sys.argv': 'import sys; sys.argv.append("x")',
    'deletes its names': 'for n in list(globals()):\n    if n not in ("__builtins__", "n"): del globals()[n]',
    'runs out of the stack': 'def r(): r()\nr()',
    'stops iterating': 'raise StopIteration',
}

sink = types.ModuleType('h25_sink')
sys.modules['h25_sink'] = sink


class Stub(object):
    """instead of urwid.MainLoop"""
    shown = None
    ending = None

    def __init__(self, widget, palette=(), *args, **kwargs):
        self.widget = widget
        self.event_loop = object()
        self.screen = self
        self.mono = False

    def set_terminal_properties(self, colors=None, *args, **kwargs):
        self.mono = colors == 1

    def run(self):
        table = self.widget.original_widget
        Stub.shown.append((self, table, sys.getprofile(), snapshot(table.stats) if table.stats is not None else None))
        if Stub.ending is not None:
            raise Stub.ending


def deep(fn):
    def f(s):
        limit = sys.getrecursionlimit()
        sys.setrecursionlimit(limit + 20000)
        try:
            return fn(s)
        finally:
            sys.setrecursionlimit(limit)
    return f


@deep
def snapshot(s):
    return dump_of(s)


def dump_of(s):
    return (s.name, s.filename, s.lineno, s.module, s.own_hits, round(s.deep_time, 9),
            sorted((dump_of(c) for c in s), key=lambda t: repr(t[:6])))


def names(s):
    """how often each function name was hit, all over the tree"""
    out, todo = {}, [s]
    while todo:
        for c in todo.pop():
            out[c.name] = out.get(c.name, 0) + c.own_hits
            todo.append(c)
    return out


class Session(object):
    """a scratch directory, with everything global put back afterwards"""

    def __enter__(self):
        self.cwd, self.argv, self.path = os.getcwd(), sys.argv, list(sys.path)
        self.argv_list = list(sys.argv)
        self.loop, self.err, self.out = urwid.MainLoop, sys.stderr, sys.stdout
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix='h25-'))
        sink.elsewhere = os.path.join(self.dir, 'elsewhere')
        os.mkdir(sink.elsewhere)
        sink.runs, sink.setups = [], []
        os.chdir(self.dir)
        urwid.MainLoop = Stub
        Stub.shown, Stub.ending = [], None
        self.null = open(os.devnull, 'w')
        sys.stderr = sys.stdout = self.null
        return self

    def __exit__(self, *exc):
        sys.setprofile(None)
        urwid.MainLoop = self.loop
        sys.stderr, sys.stdout = self.err, self.out
        self.null.close()
        sys.argv = self.argv
        sys.argv[:] = self.argv_list
        sys.path[:] = self.path
        os.chdir(self.cwd)
        shutil.rmtree(self.dir)

    def cli(self, *args):
        try:
            M.cli.main(list(args), prog_name='profiling', standalone_mode=False)
        except BaseException as e:
            return e


def program(rng, end):
    """-> source, calls per function"""
    calls = {}
    lines = ['import sys, h25_sink as sink',
             'sink.runs.append((list(sys.argv), dict(globals()), sys.getprofile() is not None))']
    n = rng.randint(0, 4)
    for i in range(n):
        callee = 'f%d(x)' % rng.randrange(i) if i and rng.random() < .6 else 'None'
        lines.append('def f%d(x):\n    return %s' % (i, callee))
        calls['f%d' % i] = callee
    seen, tree = dict.fromkeys(calls, 0), {}

    def call(name, tree):
        seen[name] += 1
        c = calls[name]
        hits, below = tree.get(name, (0, {}))
        tree[name] = (hits + 1, below)
        if c != 'None':
            call(c[:-3], below)
    for i in range(rng.randint(0, 5)):
        if calls:
            name = rng.choice(sorted(calls))
            lines.append('%s(1)' % name)
            call(name, tree)
    lines.append(ENDS[end])
    return '\n'.join(lines) + '\n', seen, tree


def functions(s):
    """the functions of the program below the root: name -> (hits, functions below)"""
    return {c.name: (c.own_hits, functions(c)) for c in s if c.name in FUNCTIONS}


FUNCTIONS = set('f%d' % i for i in range(5))


def check(H, s, how, source, seen, tree, args, argv, filename, dump, protocol, sampling, mono, result, interrupted=False):
    inp = (how, args, source)
    ok = H.equal(len(sink.runs), 1, 'the program runs once', inp)
    if not ok:
        return
    got_argv, g, profiled = sink.runs[0]
    H.equal(got_argv, argv, 'sys.argv of the program', inp)
    H.equal(g.get('__name__'), '__main__', '__name__ of the program', inp)
    if how == 'script':
        H.equal(g.get('__file__'), filename, '__file__ of the program', inp)
        extra = set(k for k in g if not k.startswith('__')) - {'sys', 'sink'}
        H.equal(extra, set(), 'names the program did not make', inp)
    if not sampling:
        H.expect(profiled, 'the program does not run under the profiler', inp)
    H.expect(sys.getprofile() is None, 'the profiler is not stopped', inp)
    if sampling:
        H.equal(signal.getitimer(signal.ITIMER_PROF)[0], 0.0, 'the sampling timer is still running', inp)
    cls = SamplingProfiler if sampling else TracingProfiler
    H.expect(result is None, 'the command raised %r' % (result,), inp)
    if dump is not None:
        H.expect(not Stub.shown, 'shown although a dump file was requested', inp)
        path = os.path.join(s.dir, dump)
        if not H.expect(os.path.isfile(path), 'there is no result in the requested file', inp):
            return
        with open(path, 'rb') as f:
            data = f.read()
        pr = data[1] if data[:1] == b'\x80' else None
        H.expect(pr == protocol if protocol >= 2 else pr is None, 'written with protocol %r instead of %r' % (pr, protocol), inp)
        cl, (stats, cpu, wall) = pickle.loads(data)
        H.expect(cl is cls, 'the class in the file is %r' % (cl,), inp)
        H.expect(cpu >= 0 and wall >= 0, 'times in the file', inp)
    else:
        if not H.equal(len(Stub.shown), 1, 'times shown', inp):
            return
        loop, table, prof, _ = Stub.shown[0]
        H.expect(type(table) is cls.table_class, 'shown by the table %r' % (type(table),), inp)
        H.expect(prof is None, 'shown under the profiler', inp)
        H.equal(loop.mono, mono, 'without colours', inp)
        H.equal(table.title, os.path.basename(filename), 'title', inp)
        H.expect(table.viewer.active, 'the viewer is not active', inp)
        stats = table.stats
        if not H.expect(stats is not None, 'no result is shown', inp):
            return
        H.expect(table.cpu_time >= 0 and table.wall_time >= 0, 'times shown', inp)
    hits = names(stats)
    for n in ('__profile__', 'exec_', 'wrapped', 'profile', 'timeit_profile', 'invoke', 'main'):
        H.expect(n not in hits, 'the driver %s is part of the result' % n, inp)
    if not sampling:
        for f, n in seen.items():
            H.equal(hits.get(f, 0), n, 'calls of %s in the result' % f, inp)
        H.equal(functions(stats), tree, 'the outermost calls of the program in the result', inp)


def run_one(H, end, how, sampling, dump, protocol, mono):
    rng = H.rng
    source, seen, tree = program(rng, end)
    extra = [rng.choice(['a', '--flag', '-x', '1', 'with space', '--', '-d']) for _ in range(rng.randint(0, 3))]
    with Session() as s:
        args = ['-S'] if sampling else rng.choice([[], ['-T']])
        if sampling:
            args += ['--sampling-interval', '0.01']
        if dump:
            args += ['-d', dump]
            if protocol is not None:
                args += ['--pickle-protocol', str(protocol)]
        if mono:
            args += ['--mono']
        if how == 'script':
            filename = rng.choice(['prog.py', 'sub/prog.py', './prog.py'])
            if '/' in filename and not os.path.isdir(os.path.dirname(filename)):
                os.mkdir(os.path.dirname(filename))
            with open(filename, 'w') as f:
                f.write(source)
            words = ['--', filename] + extra
        elif how == 'command':
            filename = '<string>'
            words = ['-c', source, '--'] + extra
        else:
            mod = 'h25_mod%d' % rng.randrange(10 ** 9)
            place = [s.dir]
            for package in range(rng.randint(0, 2)):
                # a module of a (nested) package, which imports what is beside it
                place.append('h25_package%d' % rng.randrange(10 ** 9))
                os.mkdir(os.path.join(*place))
                open(os.path.join(*(place + ['__init__.py'])), 'w').close()
            if place[1:]:
                with open(os.path.join(*(place + ['beside.py'])), 'w') as f:
                    f.write('here = %r\n' % mod)
                source = 'from . import beside\nassert beside.here == %r\n' % mod + source
            filename = os.path.join(*(place + [mod + '.py']))
            mod = '.'.join(place[1:] + [mod])
            sys.path.insert(0, s.dir)
            with open(filename, 'w') as f:
                f.write(source)
            words = ['-m', mod, '--'] + extra
        args = ['profile'] + args + words
        H.case((end, how, sampling, dump, protocol, mono, source, extra))
        result = s.cli(*args)
        check(H, s, how, source, seen, tree, args, [filename] + extra, filename, dump,
              M.remote.PICKLE_PROTOCOL if protocol is None else protocol, sampling, mono, result)
        if dump and result is None and os.path.isfile(os.path.join(s.dir, dump)):
            view(H, s, dump, mono, (how, args, source))


def view(H, s, dump, mono, inp):
    os.chdir(s.dir)
    Stub.shown = []
    t = H.rng.randrange(10 ** 8, 10 ** 9)
    os.utime(dump, (t, t))
    with open(dump, 'rb') as f:
        cl, (stats, cpu, wall) = pickle.loads(f.read())
    sys.path[:0] = []
    e = s.cli(*(['view'] + (['--mono'] if mono else []) + [dump]))
    H.expect(e is None, 'viewing the dump raised %r' % (e,), inp)
    if not H.equal(len(Stub.shown), 1, 'the dump is shown', inp):
        return
    loop, table, _, snap = Stub.shown[0]
    H.expect(type(table) is cl.table_class, 'the dump is shown by %r' % (type(table),), inp)
    H.expect(snap == snapshot(stats), 'other statistics shown than those of the dump', inp)
    H.equal((table.cpu_time, table.wall_time), (cpu, wall), 'times shown of the dump', inp)
    H.equal(table.title, os.path.basename(dump), 'title of the dump', inp)
    H.equal(table.at, datetime.fromtimestamp(t), 'time of the dump', inp)
    H.expect(table.viewer.active, 'the viewer of a dump is not active', inp)
    H.equal(loop.mono, mono, 'dump without colours', inp)


def programs(H):
    ends = sorted(ENDS)
    for end in ends:
        for dump in ('out.prof', None):
            run_one(H, end, 'script', False, dump, None, False)
    for how in ('module', 'command'):
        for end in ('returns', 'raises', 'exits', 'changes the directory'):
            run_one(H, end, how, False, 'o.dump', None, False)
            run_one(H, end, how, False, None, None, True)
    for protocol in range(0, pickle.HIGHEST_PROTOCOL + 1):
        run_one(H, 'returns', 'script', False, 'p.dump', protocol, False)
    for end in ('returns', 'raises', 'exits', 'changes the directory'):
        for dump in ('out.prof', None):
            run_one(H, end, 'script', True, dump, None, False)
    n = 0
    while H.time_left() and n < (300 if H.thorough else 40):
        n += 1
        run_one(H, H.rng.choice(ends), H.rng.choice(['script', 'module', 'command']), H.rng.random() < .3,
                H.rng.choice(['out.prof', 'a b.prof', 'elsewhere/x', None]), H.rng.choice([None, 0, 1, 2, 3, 4, 5]),
                H.rng.random() < .5)


def interface(H):
    """the user interface is interrupted or fails"""
    for ending, out in ((KeyboardInterrupt(), None), (ValueError('ui'), ValueError)):
        for end in ('returns', 'raises'):
            with Session() as s:
                with open('p.py', 'w') as f:
                    f.write(ENDS[end])
                Stub.ending = ending
                H.case((repr(ending), end))
                e = s.cli('profile', 'p.py')
                H.expect(e is None if out is None else isinstance(e, out), 'came out: %r' % (e,), (end, repr(ending)))
                H.expect(sys.getprofile() is None, 'the profiler is not stopped', end)
                H.equal(len(Stub.shown), 1, 'times shown', end)


def usage(H):
    for args in (['profile'], ['profile', '-c', 'pass', '-m', 'timeit'], ['profile', '--', ], ['profile', 'missing.py']):
        with Session() as s:
            H.case(args)
            e = s.cli(*args)
            H.expect(e is not None, 'accepted', args)
            H.expect(not Stub.shown, 'shown', args)


def timeit(H):
    for i in range(12 if H.thorough else 6):
        number = H.rng.randint(1, 30)
        with Session() as s:
            sink.count = 0
            dump = H.rng.choice(['t.prof', None])
            bad = H.rng.random() < .4
            stmt = 'sink.count += 1; f()' + ('; 1 / 0' if bad else '')
            setup = 'import h25_sink as sink\nsink.setups.append(1)\ndef f(): pass'
            protocol = H.rng.choice([None, 0, 1, 2, 3, 4])
            mono = bool(i % 2)
            args = ['timeit', '-n', str(number), '-s', setup] + (['-d', dump] if dump else []) + [stmt]
            if protocol is not None:
                args[1:1] = ['--pickle-protocol', str(protocol)]
            if mono:
                args[1:1] = ['--mono']
            H.case(args)
            e = s.cli(*args)
            inp = args
            H.expect(e is None, 'timeit raised %r' % (e,), inp)
            H.equal(len(sink.setups), 1, 'setups', inp)
            H.equal(sink.count, 1 if bad else number, 'executions of the statement', inp)
            H.expect(sys.getprofile() is None, 'the profiler is not stopped', inp)
            if dump:
                with open(os.path.join(s.dir, dump), 'rb') as f:
                    data = f.read()
                cl, (stats, cpu, wall) = pickle.loads(data)
                want = M.remote.PICKLE_PROTOCOL if protocol is None else protocol
                pr = data[1] if data[:1] == b'\x80' else None
                H.expect(pr == want if want >= 2 else pr is None, 'written with protocol %r instead of %r' % (pr, want), inp)
            else:
                if not H.equal(len(Stub.shown), 1, 'times shown', inp):
                    continue
                stats = Stub.shown[0][1].stats
                H.equal(Stub.shown[0][0].mono, mono, 'without colours', inp)
                H.equal(Stub.shown[0][1].title, os.path.basename(stmt), 'title', inp)
            H.equal(names(stats).get('f', 0), 1 if bad else number, 'calls in the result', inp)
    with Session() as s:        # the number of repetitions is found out
        sink.count = 0
        H.case('timeit without number')
        e = s.cli('timeit', '-s', 'import h25_sink as sink\nimport time\ndef f(): time.sleep(.03)',
                  '-d', 't.prof', 'sink.count += 1; f()')
        H.expect(e is None, 'timeit raised %r' % (e,), 'timeit')
        H.expect(sys.getprofile() is None, 'the profiler is not stopped', 'timeit')
        if e is None:
            with open(os.path.join(s.dir, 't.prof'), 'rb') as f:
                cl, (stats, cpu, wall) = pickle.loads(f.read())
            H.equal(names(stats).get('f', 0), 10, 'calls in the result', 'timeit')
            H.equal(sink.count, 20, 'executions in all', 'timeit')


def served(H):
    """live and remote profiling of a program in processes of their own"""
    script = ('import sys, json, os, time, socket\nT = %r\n'
              'def f(): time.sleep(.01)\n'
              'for i in range(50): f()\n'
              'with open(T, "a") as out: out.write(json.dumps([sys.argv, __name__, os.path.basename(__file__)]) + "\\n")\n')
    driver = '''
import sys, os, select
sys.path.insert(0, %r)
import urwid, pickle, time
def alive():
    for n in os.listdir('/proc'):
        if n.isdigit():
            try:
                with open('/proc/%%s/stat' %% n) as f:
                    x = f.read().rpartition(')')[2].split()
            except OSError:
                continue
            if x[1] == str(os.getpid()) and x[0] != 'Z':
                return True
class Events(object):
    def __init__(self): self.files, self.alarms = {}, []
    def watch_file(self, fd, cb): self.files[fd] = cb; return fd
    def remove_watch_file(self, fd): return self.files.pop(fd, None) is not None
    def alarm(self, s, cb): self.alarms.append(cb); return cb
    def remove_alarm(self, h): return True
class Loop(object):
    def __init__(self, widget, *a, **k):
        self.widget, self.event_loop, self.screen = widget, Events(), self
    def set_terminal_properties(self, *a, **k): pass
    def run(self):
        n = 0
        while self.event_loop.files and n < 500:
            r = select.select(list(self.event_loop.files), [], [], 5)[0]
            if not r: break
            for fd in r:
                cb = self.event_loop.files.get(fd)
                if cb: cb()
            n += 1
        while alive(): time.sleep(.02)      # until the child has ended, too
        t = self.widget.original_widget
        s = t.stats
        with open(%r, 'a') as out:
            out.write('%%s %%s\\n' %% (t.title, None if s is None else sorted(set(map(str, names(s))))))
def names(s):
    for c in s:
        yield c.name
        for n in names(c): yield n
urwid.MainLoop = Loop
from profiling.__main__ import cli
cli(prog_name='profiling')
'''
    import json
    import socket
    for cmd in ('remote-profile', 'live-profile'):
        for end, code in (('', 0), ('sys.exit(5)\n', 5), ('raise KeyError("gone")\n', 1)):
            if not H.time_left():
                return
            d = os.path.realpath(tempfile.mkdtemp(prefix='h25-'))
            try:
                prog, trace, seen = [os.path.join(d, n) for n in ('prog.py', 'trace', 'seen')]
                with open(prog, 'w') as f:
                    f.write(script % trace + end)
                with open(os.path.join(d, 'driver.py'), 'w') as f:
                    f.write(driver % (REPO, seen))
                free = socket.socket()
                free.bind(('127.0.0.1', 0))
                port = free.getsockname()[1]
                free.close()
                args = [cmd] + (['-b', '127.0.0.1:%d' % port] if cmd[0] == 'r' else []) + ['-i', '0.05', '--', prog, 'a', '-b']
                H.case(args[:1] + [end])
                p = subprocess.Popen([sys.executable, os.path.join(d, 'driver.py')] + args, cwd=d, stdin=subprocess.DEVNULL,
                                     stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                try:
                    out, err = p.communicate(timeout=30)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.communicate()
                    H.errors.append('%s did not end' % cmd)
                    continue
                inp = (cmd, end)
                runs = [json.loads(l) for l in open(trace)] if os.path.exists(trace) else []
                H.equal(runs, [[[prog, 'a', '-b'], '__main__', 'prog.py']], 'what the program saw', (inp, err[-300:]))
                if cmd[0] == 'r':
                    H.equal(p.returncode, code, 'exit code', (inp, err[-300:]))
                if 'gone' in end:
                    H.expect(b'KeyError' in err, 'the error of the program is not reported', (inp, err[-300:]))
                if cmd[0] == 'l' and os.path.exists(seen):
                    with open(seen) as f:
                        got = f.read()
                    H.expect(got.startswith(('prog.py ', 'None None')), 'title: %r' % got, inp)
                    for n in ('live_profile', 'wrapped', 'exec_'):
                        H.expect(repr(n) not in got, 'the driver is part of the result: %r' % got, inp)
            finally:
                shutil.rmtree(d)


class Nothing(samplers.Sampler):
    """never samples by itself"""

    def run(self, profiler):
        sink.profiler = profiler
        yield


def sampled(H):
    """samples at any place, the driver among them"""
    for i in range(60 if H.thorough else 25):
        rng = H.rng
        plan = [rng.choice(['driver', 'program', 'f', 'g', 'driver']) for _ in range(rng.randint(0, 6))]
        end = rng.choice(['', 'raise ValueError', 'raise SystemExit', 'raise KeyboardInterrupt'])
        lines = ['import sys, h25_sink as sink', 'me = sys._getframe()', 'driver = me.f_back',
                 'while driver.f_code.co_name != sink.driver: driver = driver.f_back',
                 'def f(): sink.profiler.sample(sys._getframe())', 'def g(): f()']
        lines += [{'driver': 'sink.profiler.sample(driver)', 'program': 'sink.profiler.sample(me)', 'f': 'f()', 'g': 'g()'}[x]
                  for x in plan]
        source = '\n'.join(lines + [end])
        f, g = plan.count('f'), plan.count('g')
        tree = {}
        if f:
            tree['f'] = (f, {})
        if g:
            tree['g'] = (0, {'f': (g, {})})
        with Session() as s:
            sink.driver = '__profile__'
            made = []

            def factory(**kw):
                made.append(SamplingProfiler(sampler=Nothing(), **kw))
                return made[-1]
            dump = rng.choice(['o', None])
            H.case((plan, end, dump))
            try:
                M.__profile__('x/name.py', compile(source, 'name.py', 'exec'), {}, factory, dump_filename=dump)
            except BaseException as e:
                H.fail('raised %r' % (e,), (plan, end, dump))
                continue
            got = {c.name: (c.own_hits, {d.name: (d.own_hits, {}) for d in c}) for c in made[0].stats if c.name in ('f', 'g')}
            other = [c.name for c in made[0].stats if c.name not in ('f', 'g', '<module>', None)]
            H.equal(got, tree, 'the samples of the program in the result', (plan, end))
            H.equal(other, [], 'other functions in the result', (plan, end))


SECTIONS = [programs, interface, sampled, usage, timeit, served]
