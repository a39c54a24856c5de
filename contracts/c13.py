"""C13: deferred calls all run exactly once, last first.

Contract of call_deferred(deferred):
    ensures (normal or exceptional)  calls == old(calls) ++ reverse(old(deferred)), deferred == []
    ensures  an exception is raised iff one of the calls failed, and it is one of theirs
Client program: any number of calls deferred in a block that ends in any way.
"""
from .common import *


def call_fn(I, f, args, kwargs):
    path = I.path
    st = path.c13
    a = args[0].v if len(args) == 1 and isinstance(args[0], StarArgs) else tuple(args)
    k = kwargs.get('**', tuple(sorted(kwargs.items())))
    st.trace.add((f, a, k))
    if path.choose(2, 'the call fails'):
        path.write(path.ghost, 'failed', True)
        e = path.interp.exc('ValueError', 'deferred')
        e.value.d['#error'] = True
        raise e


FN = Kind('callable')
FN.call = lambda I, o, args, kwargs: call_fn(I, o, args, kwargs)
ENTRY = ('tup', (('ref', FN), ('ref', ARGS), ('ref', ARGS)))


class State(object):
    def __init__(self, path):
        self.path = path
        path.c13 = self
        self.trace = GhostTrace(path)
        path.ghost.d['failed'] = False
        self.D = (Var(path.new_seq(ENTRY, 'deferred')),)
        self.target = path.rev(self.D)

    def candidates(self, lv):
        p = self.path
        g = lambda: p.ghost.d['trace']
        for label, s, s0 in lv.seqs():
            if label.startswith('Ghost'):
                continue
            yield ('trace ++ rev %s' % label, lambda s=s: ('seqeq', tuple(g()) + p.rev(p.norm(s())), self.target))
            yield ('trace ++ %s' % label, lambda s=s: ('seqeq', tuple(g()) + tuple(p.norm(s())), self.target))
            if lv.is_for:
                yield ('%s == entry ++ P' % label, lambda s=s, s0=s0: ('seqeq', s(), tuple(s0()) + tuple(lv.P)))
                yield ('%s == rev P ++ entry' % label, lambda s=s, s0=s0: ('seqeq', s(), p.rev(lv.P) + tuple(s0())))
        if lv.is_for:
            yield ('trace == P', lambda: ('seqeq', g(), lv.P))
        for l in lv.ghosts():
            if l[1] == 'failed':
                yield ('no failure so far', lambda: z3.Not(zb(lib.term(p.interp, p.ghost.d['failed']))))

    def check(self, e, block_error=None):
        p = self.path
        p.check('every deferred call is made exactly once, in reverse order', p.seq_eq(self.trace.seq, self.target))
        failed = zb(lib.term(p.interp, p.ghost.d['failed']))
        if e is None:
            p.check('the error of a failing call is not swallowed', z3.Not(failed))
            p.check('the error of the block is not swallowed', block_error is None)
            p.cover('normal end')
        else:
            own = e.d.get('#error', False)
            p.check('only the errors of the calls and of the block are raised',
                    z3.Or(z3.And(z3.BoolVal(own is True), failed), z3.BoolVal(e is block_error)))
            p.cover('exceptional end')


def recursive_call(st, top):
    """The contract of call_deferred, for its recursive calls."""
    def fn(path, args, kwargs):
        l = args[0]
        if not isinstance(l, PyList):
            raise Unsupported('call_deferred of %r' % (l,))
        if top is not None:
            path.check('recursion shrinks the list', path.length(l.d['seq']) < top)
        path.write(path.ghost, 'trace', path.ghost.d['trace'] + path.rev(path.norm(l.d['seq'])))
        path.write(l, 'seq', ())
        if path.choose(2, 'a remaining call fails'):
            path.write(path.ghost, 'failed', True)
            e = path.interp.exc('ValueError', 'deferred')
            e.value.d['#error'] = True
            raise e
    return fn


@contract('C13', 'call_deferred', ['profiling.utils'])
def run_call_deferred(path):
    f = path.interp.modules['profiling.utils'].d.get('call_deferred')
    if not isinstance(f, PyFunc):
        path.check('no helper call_deferred: nothing to prove', True)
        return
    st = State(path)
    path.interp.candidates = st.candidates
    path.interp.models['profiling.utils:call_deferred'] = recursive_call(st, path.length(st.D))
    path.interp.skip_model.add('profiling.utils:call_deferred')
    l = PyList(st.D)
    r, e = attempt(path, lambda: call(path, f, l))
    st.check(e)
    path.check('the list is empty afterwards', path.seq_eq(l.d['seq'], ()))


CLIENT = '''
def main(items, deferral, before, end):
    with deferral() as defer:
        for f, a, k in items:
            defer(f, *a, **k)
        before()
        end()
'''


@contract('C13', 'deferral', ['profiling.utils'])
def run_deferral(path):
    st = State(path)
    path.interp.candidates = st.candidates
    path.interp.models['profiling.utils:call_deferred'] = recursive_call(st, None)
    err = path.interp.exc('KeyError', 'block').value
    chosen = []

    def before(I, a, k):
        path.check('no deferred call is made before the block ends', path.seq_eq(st.trace.seq, ()))

    def end(I, a, k):
        if path.choose(2, 'the block raises'):
            chosen.append(err)
            raise PyExc(err)
    main = program(path, CLIENT)
    r, e = attempt(path, lambda: call(path, main, SeqVal(st.D), cls(path, 'profiling.utils:deferral'),
                                      Builtin('before', before), Builtin('end', end)))
    st.check(e, chosen[0] if chosen else None)


ASSUMPTIONS = ['a deferred function may do anything except touch the list of deferred calls of this block',
               'contextlib.contextmanager behaves as documented',
               'termination of the recursion by the strictly shrinking list (obligation "recursion shrinks the list")']
