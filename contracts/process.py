"""The process state which profilers touch, as ghost state behind the external functions."""
from .common import *

HOOKFN = Kind('previous hook')


class Process(object):
    """sys/threading profile hooks, the SIGPROF handler, the profiling timer, the greenlet trace hook.

    Installing calls may fail (once, without an effect) while `starting` is set.
    """

    def __init__(self, path, faults=True):
        self.path = path
        self.starting = False
        self.faults = faults
        self.failed = None
        g = path.ghost.d
        g['sys'] = None
        g['threading'] = None
        g['greenlet'] = None
        g['handler'] = Ext('signal.SIG_DFL')
        g['itimer'] = (0.0, 0.0)
        for name, fn in (('sys.setprofile', self.sys_setprofile), ('sys.getprofile', lambda p, a, k: g['sys']),
                         ('threading.setprofile', self.thr_setprofile),
                         ('signal.signal', self.signal), ('signal.setitimer', self.setitimer),
                         ('signal.getsignal', lambda p, a, k: g['handler']),
                         ('signal.getitimer', lambda p, a, k: g['itimer']),
                         ('greenlet.settrace', self.settrace),
                         ('greenlet.gettrace', lambda p, a, k: g['greenlet']),
                         ('weakref.proxy', lambda p, a, k: a[0])):
            model(path, name, fn)
        clock = lambda p, a, k: SV('real', p.fresh('clock', REAL))
        for name in ('time.clock', 'time.time'):
            model(path, name, clock)
        model(path, 'signal.SIGPROF@', lambda p: 27)
        model(path, 'signal.ITIMER_PROF@', lambda p: 2)

    def may_fail(self, what):
        if self.starting and self.faults and self.failed is None:
            if self.path.choose(2, '%s fails' % what):
                self.failed = what
                raise self.path.interp.exc('OSError', '%s fails' % what)

    def set(self, key, v):
        self.path.write(self.path.ghost, key, v)

    def get(self, key):
        return self.path.ghost.d[key]

    def sys_setprofile(self, path, a, k):
        self.may_fail('sys.setprofile')
        self.set('sys', a[0])

    def thr_setprofile(self, path, a, k):
        self.may_fail('threading.setprofile')
        self.set('threading', a[0])

    def settrace(self, path, a, k):
        self.may_fail('greenlet.settrace')
        old = self.get('greenlet')
        self.set('greenlet', a[0])
        return old

    def signal(self, path, a, k):
        path.check('only the profiling signal is touched', eq(path, a[0], 27))
        self.may_fail('signal.signal')
        old = self.get('handler')
        self.set('handler', a[1])
        return old

    def setitimer(self, path, a, k):
        path.check('only the profiling interval timer is touched', eq(path, a[0], 2))
        self.may_fail('signal.setitimer')
        old = self.get('itimer')
        self.set('itimer', (a[1], a[2] if len(a) > 2 else k.get('interval', 0.0)))
        return old

    def previous(self, handler, itimer=None):
        """Set up what was installed before profiling."""
        self.set('handler', handler)
        if itimer is not None:
            self.set('itimer', itimer)

    def start(self, fn):
        self.starting, self.failed = True, None
        try:
            return attempt(self.path, fn)
        finally:
            self.starting = False


def same_hook(path, a, b):
    if a is None or b is None:
        return z3.BoolVal(a is None and b is None)
    return eq(path, a, b) if a is not b else z3.BoolVal(True)
