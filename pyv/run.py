"""Run the contracts of a property: one forked process per contract."""
import importlib
import os
import pickle
import select
import signal
import sys
import time
import traceback
from .engine import World, Explorer, Stats
from .interp import Interp
from . import lib
from .values import Unsupported
sys.setrecursionlimit(20000)


class Result(object):
    """Plain data about one contract."""

    def __init__(self, name):
        self.name = name
        self.obls = []          # dicts
        self.error = None       # Unsupported / internal error text
        self.covers = {}
        self.inv = []
        self.used = {}
        self.ext_used = []
        self.solver_s = 0.0
        self.queries = 0
        self.paths = 0
        self.completed = 0
        self.time = 0.0
        self.second = {}
        self.functions = []


_worlds = {}


def world_for(modules, speedup, repo):
    key = (tuple(modules), speedup)
    if key not in _worlds:
        w = World()
        I = Interp(w, repo, speedup=speedup)
        for m in modules:
            if I.load(m) is None:
                raise Unsupported('module %s is missing' % m)
        w.freeze()
        _worlds[key] = (w, I, lib.state())
    w, I, st = _worlds[key]
    vars(lib).update(st)
    return w, I


def prove(c, repo, deadline, second=None, modules=None):
    r = Result(c.name)
    t0 = time.time()
    try:
        w, I = world_for(modules or c.modules, c.speedup, repo)
        from . import values
        values.Mutable.world = w
        st = Stats()
        I.used, I.ext_used = {}, {}
        ex = Explorer(w, I, c.name, c.fn, dict(c.opts), st, deadline, second)
        try:
            obls = ex.run()
            r.obls = [dict(name=o.name, where=o.where, status=o.status, model=o.model, kind=o.kind,
                           detail=o.detail, hints=o.hints) for o in obls]
        finally:
            r.solver_s, r.queries, r.paths = st.solver_s, st.queries, st.paths
            r.covers = dict(getattr(ex, 'covers', {}))
            r.completed = getattr(ex, 'completed', 0)
            r.inv = sorted('%s: %s' % k for k in getattr(ex, 'inv', {}))
            r.used = dict(I.used)
            r.ext_used = sorted(I.ext_used)
            r.second = dict(st.second)
    except Unsupported as e:
        r.error = 'unsupported: %s' % e
    except RecursionError:
        r.error = 'unsupported: recursion limit'
    except BaseException as e:
        r.error = 'internal: %s' % ''.join(traceback.format_exception(type(e), e, e.__traceback__, limit=-6))
        if type(e).__name__ in ('PyExc',):
            r.error += ' %r %r at %s' % (e.value, e.value.d, I.where())
    r.time = time.time() - t0
    return r


def run_all(contracts, repo, jobs=8, per=300, second=None, modules=None, verbose=False, total=None):
    """-> list of Result, in order"""
    # worlds are loaded once, before forking
    for c in contracts:
        try:
            world_for(modules or c.modules, c.speedup, repo)
        except BaseException:
            pass
    end = time.time() + total if total else None
    out = [None] * len(contracts)
    todo = list(range(len(contracts)))
    live = {}
    while todo or live:
        while todo and len(live) < jobs:
            i = todo.pop(0)
            if end and time.time() > end:
                out[i] = Result(contracts[i].name)
                out[i].error = 'unsupported: the time for proofs ran out'
                continue
            rd, wr = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(rd)
                try:
                    r = prove(contracts[i], repo, min(time.time() + per, end or 1e12), second, modules)
                    data = pickle.dumps(r)
                    with os.fdopen(wr, 'wb') as f:
                        f.write(data)
                finally:
                    os._exit(0)
            os.close(wr)
            live[rd] = (i, pid, [], time.time())
        ready, _, _ = select.select(list(live), [], [], 1.0)
        now = time.time()
        for rd in list(live):
            i, pid, buf, t0 = live[rd]
            done = False
            if rd in ready:
                b = os.read(rd, 1 << 20)
                if b:
                    buf.append(b)
                else:
                    done = True
            if not done and (now - t0 > per + 60 or end and now > end + 40):
                os.kill(pid, signal.SIGKILL)
                done = True
            if done:
                os.close(rd)
                os.waitpid(pid, 0)
                del live[rd]
                try:
                    out[i] = pickle.loads(b''.join(buf))
                except Exception:
                    out[i] = Result(contracts[i].name)
                    out[i].error = 'unsupported: the prover process died or ran out of time'
                if verbose:
                    show(out[i])
    return out


def show(r, detail=True):
    n = {}
    for o in r.obls:
        n[o['status']] = n.get(o['status'], 0) + 1
    print('%-60s %s paths=%d completed=%d %.1fs solver %.1fs %s' % (
        r.name, n, r.paths, r.completed, r.time, r.solver_s, 'ERROR' if r.error else ''))
    if r.error:
        print('   ', r.error)
    for k, v in r.covers.items():
        if not v:
            print('    UNREACHABLE cover', k)
    if detail:
        for o in r.obls:
            if o['status'] != 'proved':
                print('    %s: %s at %s\n        %s\n        hints %s\n        model %s' % (
                    o['status'], o['name'], o['where'], (o['detail'] or '')[:600], o['hints'], (o['model'] or '')[:800].replace('\n', ' ')))


def main():
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import contracts.common as cc
    prop = sys.argv[1]
    importlib.import_module('contracts.' + prop.lower())
    cs = cc.CONTRACTS[prop]
    if len(sys.argv) > 2:
        cs = [c for c in cs if sys.argv[2] in c.name]
    jobs = int(os.environ.get('JOBS', '8'))
    if os.environ.get('INPROC'):
        for c in cs:
            r = prove(c, cc.REPO, time.time() + 300)
            show(r)
            for i in r.inv:
                print('    inv', i)
        return
    for r in run_all(cs, cc.REPO, jobs=jobs, verbose=True, per=int(os.environ.get('PER', '300'))):
        if os.environ.get('INV'):
            for i in r.inv:
                print('    inv', i)


if __name__ == '__main__':
    main()
