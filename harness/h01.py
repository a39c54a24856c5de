"""C01: frame_stack against a direct reference, pure Python and compiled."""
import importlib.util
import itertools
import os
import subprocess
import sys
import sysconfig

from base import REPO
from profiling import utils
from profiling.profiler import Profiler
from profiling.sampling import SamplingProfiler
from profiling.tracing import TracingProfiler

RULE = ('fake and real frame chains up to depth 5 exhaustively over base/ignore choices, '
        'deeper ones at random; distinct = different (chain, settings)')


class Code(object):
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'code%d' % self.n


class Frame(object):
    def __init__(self, n, code, back):
        self.n, self.f_code, self.f_back = n, code, back

    def __repr__(self):
        return 'f%d:%r' % (self.n, self.f_code)


def reference(frame, base_frame=None, base_code=None, ignored_frames=(), ignored_codes=()):
    out = []
    while frame is not None:
        if frame is base_frame:
            break
        if frame.f_code is base_code:
            break
        skip = any(frame is x for x in ignored_frames) or any(frame.f_code is x for x in ignored_codes)
        if not skip:
            out.insert(0, frame)
        frame = frame.f_back
    return out


def chain(codes):
    f = None
    fs = []
    for i, c in enumerate(codes):
        f = Frame(i, c, f)
        fs.append(f)
    return fs


def subsets(xs, n):
    for k in range(n + 1):
        for c in itertools.combinations(xs, k):
            yield c


def python_version():
    """utils.frame_stack without the accelerator."""
    if not utils.speedup:
        return utils.frame_stack
    return None


def check(H, impl, name, fs, f, bf, bc, igf, igc):
    inp = dict(impl=name, chain=fs, frame=f, base_frame=bf, base_code=bc, ignored_frames=igf, ignored_codes=igc)
    H.case(inp)
    ok, r = H.attempt('frame_stack', inp, impl, f, bf, bc, igf, igc)
    if ok:
        H.expect(isinstance(list(r), list) and list(map(id, r)) == list(map(id, reference(f, bf, bc, igf, igc))),
                 'wrong stack %r, expected %r' % (list(r), reference(f, bf, bc, igf, igc)), inp)


def exhaustive(H, impl, name, limit):
    codes = [Code(i) for i in range(3)]
    foreign_code, foreign = Code(99), Frame(99, Code(98), None)
    for n in range(0, limit + 1):
        for cs in itertools.product(codes[:2] if n > 3 else codes, repeat=n):
            fs = chain(cs)
            for f in fs[-1:] or [None]:
                if f is None and name == 'speedup':
                    continue
                for bf in [None, foreign] + fs:
                    for bc in [None, foreign_code] + list(dict.fromkeys(cs)):
                        for igf in subsets(fs, 2 if n < 4 else 1):
                            for igc in subsets(list(dict.fromkeys(cs)), 2 if n < 4 else 1):
                                check(H, impl, name, fs, f, bf, bc, igf, igc)


def pure(H):
    exhaustive(H, utils.frame_stack, 'python', 4 if H.thorough else 3)
    codes = [Code(i) for i in range(5)]
    for _ in range(300 if not H.thorough else 5000):
        fs = chain([H.rng.choice(codes) for _ in range(H.rng.randint(1, 60))])
        pick = lambda xs, k: tuple(H.rng.choice(xs) for _ in range(H.rng.randint(0, k)))
        igf = pick(fs, 6)
        igc = pick(codes, 2)
        if H.rng.random() < .5:
            igf, igc = set(igf), set(igc)
        check(H, utils.frame_stack, 'python', fs, H.rng.choice(fs), H.rng.choice([None] + fs), H.rng.choice([None, None] + codes),
              igf, igc)
    H.case('no frame')
    ok, r = H.attempt('frame_stack(None)', None, utils.frame_stack, None)
    if ok:
        H.equal(list(r), [], 'stack of no frame', None)


def profilers(H):
    from profiling.sampling.samplers import Sampler
    from profiling.tracing.timers import Timer
    codes = [Code(i) for i in range(3)]
    for n in range(1, 4):
        for cs in itertools.product(codes, repeat=n):
            fs = chain(cs)
            for bf in [None] + fs:
                for bc in [None] + list(dict.fromkeys(cs)):
                    for igf in subsets(fs, 1):
                        for igc in subsets(list(dict.fromkeys(cs)), 1):
                            kw = dict(base_frame=bf, base_code=bc, ignored_frames=igf, ignored_codes=igc)
                            for make in (Profiler, lambda **k: TracingProfiler(timer=Timer(), **k),
                                         lambda **k: SamplingProfiler(sampler=Sampler(), **k)):
                                inp = dict(chain=fs, **kw)
                                H.case(inp)
                                ok, p = H.attempt('profiler', inp, make, **kw)
                                if not ok:
                                    return
                                ok, r = H.attempt('profiler.frame_stack', inp, p.frame_stack, fs[-1])
                                if ok:
                                    H.expect(list(map(id, r)) == list(map(id, reference(fs[-1], **kw))),
                                             'wrong stack %r of %s' % (list(r), type(p).__name__), inp)


def deep(H):
    """stacks of thousands of frames"""
    codes = [Code(i) for i in range(5)]
    for n in (1000, 5000, 70000):
        fs = chain([H.rng.choice(codes) for _ in range(n)])
        for bf, igf, igc in ((None, (), ()), (fs[1], (fs[n // 2],), ()), (fs[n // 3], (), (codes[3],))):
            inp = dict(frames=n, base_frame=bf, ignored_frames=igf, ignored_codes=igc)
            H.case(inp)
            ok, r = H.attempt('frame_stack', inp, utils.frame_stack, fs[-1], bf, None, igf, igc)
            if ok:
                want = [f for f in fs[fs.index(bf) + 1 if bf else 0:] if f not in igf and f.f_code not in igc]
                r = list(r)
                H.expect(len(r) == len(want) and all(a is b for a, b in zip(r, want)), 'wrong stack: %d frames, expected %d' % (len(r), len(want)), inp)


def real_frames(H):
    def rec(n):
        if n:
            return rec(n - 1)
        f = sys._getframe()
        names = [x.f_code.co_name for x in utils.frame_stack(f)]
        H.case('real frames')
        want = []
        while f:
            want.insert(0, f.f_code.co_name)
            f = f.f_back
        H.equal(names, want, 'real stack', n)
    rec(5)


def compiled(H):
    d = os.environ.get('HARNESS_TMP') or os.getcwd()
    so = os.path.join(d, 'speedup' + (sysconfig.get_config_var('EXT_SUFFIX') or '.so'))
    inc = [x for x in (sysconfig.get_paths()['include'], '/usr/include/pypy3.9') if x and os.path.exists(os.path.join(x, 'Python.h'))]
    # 60 000 frames in the real structure cannot be faked: real frames are used
    r = subprocess.run(['gcc', '-shared', '-fPIC', '-w', '-I' + inc[0], os.path.join(REPO, 'profiling/speedup.c'), '-o', so],
                       capture_output=True, text=True)
    if r.returncode:
        H.errors.append('speedup.c does not compile: ' + r.stderr[:500])
        return
    spec = importlib.util.spec_from_file_location('speedup', so)
    sp = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(sp)

    def a(k):
        return k()

    def b(k):
        return k()

    def c(k):
        return k()
    fns = [a, b, c]

    def drive(order, k):
        if not order:
            return k()
        return fns[order[0]](lambda: drive(order[1:], k))
    import random

    def probe():
        f = sys._getframe()
        real = []
        x = f
        while x is not None:
            real.append(x)
            x = x.f_back
        near = real[:8]
        cs = [x.f_code for x in near]
        rng = H.rng
        for _ in range(25 if not H.thorough else 200):
            bf = rng.choice([None] + near)
            bc = rng.choice([None, None] + cs)
            igf = set(rng.sample(near, rng.randint(0, 2)))
            igc = set(rng.sample(list(dict.fromkeys(cs)), rng.randint(0, 1)))
            inp = dict(frames=[x.f_code.co_name for x in near], base_frame=bf and near.index(bf),
                       base_code=bc and bc.co_name, ignored_frames=[near.index(x) for x in igf],
                       ignored_codes=[x.co_name for x in igc])
            H.case(inp)
            got = sp.frame_stack(f, bf, bc, igf, igc)
            H.expect(list(map(id, got)) == list(map(id, reference(f, bf, bc, igf, igc))),
                     'the accelerator gives %r' % [x.f_code.co_name for x in got], inp)
    for _ in range(12):
        drive([H.rng.randrange(3) for _ in range(H.rng.randint(0, 5))], probe)
    # the module used with the accelerator in place
    src = open(os.path.join(REPO, 'profiling/utils.py')).read()
    import types
    import profiling
    old = sys.modules.get('profiling.speedup')
    sys.modules['profiling.speedup'] = sp
    profiling.speedup = sp
    try:
        m = types.ModuleType('utils_with_speedup')
        exec(compile(src, 'utils.py', 'exec'), m.__dict__)
    finally:
        del profiling.speedup
        if old is None:
            del sys.modules['profiling.speedup']
        else:
            sys.modules['profiling.speedup'] = old

    def probe2():
        f = sys._getframe()
        near = reference(f)[-6:]
        for bf in [None] + near:
            for igf in [(), near[:1], near[2:4]]:
                for igc in [(), [near[1].f_code]]:
                    for bc in (None, near[0].f_code):
                        H.case(('utils+speedup', near.index(bf) if bf else None, len(igf), len(igc), bc is None))
                        got = m.frame_stack(f, bf, bc, igf, igc)
                        H.expect(list(map(id, got)) == list(map(id, reference(f, bf, bc, igf, igc))),
                                 'frame_stack with the accelerator is wrong', (bf, igf, igc, bc))
    drive([0, 1, 2], probe2)


SECTIONS = [pure, deep, profilers, real_frames, compiled]
