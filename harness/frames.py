"""Stand-ins for frames: a chain of objects with f_code and f_back over real code objects."""
from profiling import utils

SPEEDUP = bool(utils.speedup)


class Frame(object):
    def __init__(self, code, back):
        self.f_code, self.f_back, self.f_lineno = code, back, code.co_firstlineno

    def __repr__(self):
        return '/'.join(names(self))


def codes(n, first='f'):
    out = []
    for i in range(n):
        ns = {}
        what = '%s%d' % (first, i), ('pass', 'yield', 'return lambda: 0')[i % 3]       # functions and generators
        exec(compile('\n' * i + 'def %s(): %s' % what, 'mod%d.py' % (i % 3), 'exec'), ns)
        out.append(ns['%s%d' % (first, i)].__code__)
    return out


def chain(frame):
    out = []
    while frame is not None:
        out.append(frame)
        frame = frame.f_back
    return out[::-1]


def names(frame):
    return [f.f_code.co_name for f in chain(frame)]


def stack(frame, base_frame=None, base_code=None, ignored_frames=(), ignored_codes=()):
    """The specification of the captured stack."""
    out = []
    while frame is not None:
        if frame is base_frame or frame.f_code is base_code:
            break
        if not (any(frame is f for f in ignored_frames) or any(frame.f_code is c for c in ignored_codes)):
            out.append(frame)
        frame = frame.f_back
    return out[::-1]


def callpath(frame, **settings):
    """Codes of the profiled callers and of the frame itself."""
    s = stack(frame, **settings)
    if s and s[-1] is frame:
        s.pop()
    return tuple(f.f_code for f in s) + (frame.f_code,)


def tree(stats):
    """{path of codes: (class name, own hits, inclusive time)}"""
    out = {}

    def walk(s, path):
        for c in s:
            k = path + (c.code,)
            out[k] = (type(c).__name__, c.own_hits, c.deep_time)
            walk(c, k)
    walk(stats, ())
    return out


def show(t):
    return {'/'.join(c.co_name for c in k): v for k, v in t.items()}


def hook_of(p):
    """The profile hook of a started profiler; it is never in effect, so it has recorded nothing yet."""
    import sys
    import threading
    saved = sys.setprofile, threading.setprofile
    hooks = []
    sys.setprofile = hooks.append
    threading.setprofile = lambda f: None
    try:
        p.start()
        p.stop()
    finally:
        sys.setprofile, threading.setprofile = saved
    hooks = [h for h in hooks if h is not None]
    return hooks[0]
