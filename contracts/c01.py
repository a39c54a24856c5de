"""C01: the captured call stack is exactly the filtered caller chain.

Contract of frame_stack (Python and C):
    ensures  list(result) == S(frame)
where   S(None) = S(base) = S(frame of base code) = []
        S(f) = S(f.f_back)            if f or its code is ignored
        S(f) = S(f.f_back) + [f]      otherwise
Loop invariant (found among the offered candidates):  S(frame) ++ frames == S(frame0)
(or with `frames` reversed).
"""
from .common import *

s_S = uf('chain', U, SeqS)


class Setting(object):
    def __init__(self, path, real_frame=False):
        self.path = path
        kinds = (('ref', FRAME), ('ref', CODE))
        # the accelerator accepts only frames as its first argument
        real_frame = real_frame or path.interp.speedup
        self.f0 = fresh(path, kinds[0] if real_frame else ('opt', kinds[0]), 'frame')
        self.base_frame = fresh(path, ('opt', kinds[0]), 'base_frame')
        self.base_code = fresh(path, ('opt', kinds[1]), 'base_code')
        self.ign_f = SeqVal((Var(path.new_seq(('ref', FRAME), 'ignored_frames')),))
        self.ign_c = SeqVal((Var(path.new_seq(('ref', CODE), 'ignored_codes')),))

    def stops(self, u):
        p = self.path
        code = FRAME.attr_u(u, 'f_code')
        return z3.Or(U.is_none(u), u == p.to_u(self.base_frame), code == p.to_u(self.base_code))

    def ignored(self, u):
        p = self.path
        f = p.from_u(('ref', FRAME), u)
        c = p.from_u(('ref', CODE), FRAME.attr_u(u, 'f_code'))
        return z3.Or(zb(lib.contains(p.interp, self.ign_f, f)), zb(lib.contains(p.interp, self.ign_c, c)))

    def chain(self, u):
        """The specification sequence S(u)."""
        p = self.path

        def unfold(path):
            st = self.stops(u)
            if path.must(st):
                return ()
            if not path.must(z3.Not(st)):
                return None
            ig = self.ignored(u)
            back = self.chain(FRAME.attr_u(u, 'f_back'))
            if path.must(ig):
                return (back,)
            if path.must(z3.Not(ig)):
                return (back, Unit(path.from_u(('ref', FRAME), u)))
            return None
        return Var(p.seq_at('S', s_S(u), ('ref', FRAME), unfold=unfold))

    def spec(self):
        return (self.chain(self.path.to_u(self.f0)),)

    def candidates(self, lv):
        p = self.path
        spec = self.spec()
        for loc in lv.refs('frame'):
            v = lambda loc=loc: self.chain(p.to_u(lv.val(loc)))
            for label, s, _ in lv.seqs():
                yield ('chain(%s)++%s' % (lv.label(loc), label),
                       lambda v=v, s=s: ('seqeq', (v(),) + tuple(s()), spec))
                yield ('chain(%s)++rev %s' % (lv.label(loc), label),
                       lambda v=v, s=s: ('seqeq', (v(),) + p.rev(p.norm(s())), spec))


def check_result(path, st, r, e):
    path.check('returns without an exception', e is None)
    if e is None:
        path.check('result is the filtered caller chain, outermost first', path.seq_eq(seq_of(path, r), st.spec()))
        path.cover('result')


def run_frame_stack(path):
    st = Setting(path)
    path.interp.candidates = st.candidates
    f = cls(path, 'profiling.utils:frame_stack')
    r, e = attempt(path, lambda: call(path, f, st.f0, st.base_frame, st.base_code, st.ign_f, st.ign_c))
    check_result(path, st, r, e)


def run_profiler(qual, extra):
    def run(path):
        st = Setting(path)
        path.interp.candidates = st.candidates
        args = extra(path)
        p = new(path, qual, base_frame=st.base_frame, base_code=st.base_code,
                ignored_frames=st.ign_f, ignored_codes=st.ign_c, **args)
        r, e = attempt(path, lambda: call(path, get(path, p, 'frame_stack'), st.f0))
        check_result(path, st, r, e)
    return run


def run_defaults(path):
    """A profiler without settings captures the whole chain."""
    st = Setting(path)
    st.base_frame = st.base_code = None
    st.ign_f = st.ign_c = SeqVal(())
    path.interp.candidates = st.candidates
    p = new(path, 'profiling.profiler:Profiler')
    r, e = attempt(path, lambda: call(path, get(path, p, 'frame_stack'), st.f0))
    check_result(path, st, r, e)


for _sp in (False, True):
    _n = ' (compiled accelerator)' if _sp else ''
    contract('C01', 'frame_stack' + _n, ['profiling.utils'], speedup=_sp)(run_frame_stack)
    contract('C01', 'Profiler.frame_stack' + _n, ['profiling.profiler'], speedup=_sp)(
        run_profiler('profiling.profiler:Profiler', lambda path: {}))
    contract('C01', 'Profiler.frame_stack default settings' + _n, ['profiling.profiler'], speedup=_sp)(run_defaults)
contract('C01', 'TracingProfiler.frame_stack', ['profiling.tracing'])(
    run_profiler('profiling.tracing:TracingProfiler', lambda path: {'timer': new(path, 'profiling.tracing.timers:Timer')}))
contract('C01', 'SamplingProfiler.frame_stack', ['profiling.sampling'])(
    run_profiler('profiling.sampling:SamplingProfiler', lambda path: {'sampler': new(path, 'profiling.sampling.samplers:Sampler')}))
