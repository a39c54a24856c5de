"""C04: each sample adds exactly one hit, at the sampled call path.

Contract of SamplingProfiler.sample(frame), for the node at every position K of the tree:
    ensures  hits'(K) == hits(K) + (1 if K is the call path of the frame else 0),  counting there
    ensures  recorded'(K) == recorded(K) or K is on the call path;  a new caller is an absent node without hits
    ensures  the time of every node is unchanged,  total hits' == total hits + 1
Loop invariant: the node reached is the one at walk(root, codes of the frames so far).
"""
from .common import *
from .process import Process
from .trie import Trie, another, captured, frame_stack_model


def check_hit(path, T, callers, frame, n=1):
    here, passed = T.walk(callers)
    tau = T.child(here, get(path, frame, 'f_code'))
    at = T.kappa == tau
    path.check('one hit at the call path of the frame and no other hit changes',
               T.g('hits') == T.e('hits') + z3.If(at, n, 0))
    path.check('the function is counted there', z3.Implies(at, z3.And(T.g('present'), z3.Not(T.g('void')))))
    path.check('exactly the call path is added, nothing is removed',
               T.g('present') == z3.Or(T.e('present'), passed, at))
    path.check('callers never seen are added as absent ones',
               z3.Implies(z3.And(z3.Not(T.e('present')), passed, z3.Not(at)), T.g('void')))
    path.check('callers stay as they were', z3.Implies(z3.And(T.e('present'), z3.Not(at)), T.g('void') == T.e('void')))
    path.check('no time changes', T.g('time') == T.e('time'))
    path.check('the total of the hits grows by one', T.g('total') == T.e('total') + n)


def setting(path, *frames):
    T = Trie(path)
    frame = ref(path, FRAME, 'frame')
    stack, callers = captured(path, frame, *frames)
    frame_stack_model(path, frame, stack)
    path.interp.candidates = T.candidates
    return T, frame, callers


@contract('C04', 'SamplingProfiler.sample', ['profiling.sampling'])
def run_sample(path):
    T, frame, callers = setting(path)
    s = new(path, 'profiling.sampling.samplers:Sampler')
    p = new(path, 'profiling.sampling:SamplingProfiler', sampler=s)
    path.interp.setattr(p, 'stats', T.root())
    r, e = attempt(path, lambda: call(path, get(path, p, 'sample'), frame))
    path.check('does not fail', e is None)
    check_hit(path, T, callers, frame)
    path.cover('sampled')


@contract('C04', 'a signal takes one sample of the interrupted frame', ['profiling.sampling'])
def run_signal(path):
    T, frame, callers = setting(path)
    P = Process(path, False)
    s = new(path, 'profiling.sampling.samplers:ItimerSampler')
    p = new(path, 'profiling.sampling:SamplingProfiler', sampler=s)
    call(path, get(path, p, 'start'))
    path.interp.setattr(p, 'stats', T.root())
    h = P.get('handler')
    path.check('a handler is installed', not isinstance(h, Ext))
    r, e = attempt(path, lambda: call(path, h, 27, frame))
    path.check('does not fail', e is None)
    check_hit(path, T, callers, frame)
    path.cover('sampled')


def second(again):
    def run(path):
        """whatever a sample leaves behind, the next one counts alike, also in the next run of the profiler"""
        frame2 = ref(path, FRAME, 'second frame')
        T, frame, callers = setting(path, frame2)
        P = Process(path, False)
        s = new(path, 'profiling.sampling.samplers:ItimerSampler')
        p = new(path, 'profiling.sampling:SamplingProfiler', sampler=s)
        call(path, get(path, p, 'start'))
        path.interp.setattr(p, 'stats', T.root())
        call(path, get(path, p, 'sample'), frame)
        if again:
            call(path, get(path, p, 'stop'))
            call(path, get(path, p, 'start'))
            path.cover('started again')
        T.mark()
        stack, callers = another(path, frame, callers[0], frame2)
        frame_stack_model(path, frame2, stack)
        path.interp.candidates = T.candidates
        r, e = attempt(path, lambda: call(path, get(path, p, 'sample'), frame2))
        path.check('does not fail', e is None)
        check_hit(path, T, callers, frame2)
        path.cover('sampled')
    return run


contract('C04', 'a sample after another one', ['profiling.sampling'])(second(False))
contract('C04', 'a sample after one in the run before', ['profiling.sampling'])(second(True))


ASSUMPTIONS = ['the captured stack is the one of property C01; its frames are pairwise different',
               'the nodes of the tree behave as proved for property C09; by induction over the samples (each adds one '
               'hit at one position and changes no other) the total equals the number of samples']
