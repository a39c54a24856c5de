"""Runtime side of the checks: runs the real code (PyPy of /opt/venv) on a bounded,
deterministic set of inputs and on inputs suggested by the verifier's models.

    python base.py PROP --tier quick --seed 1 --hints FILE      -> JSON on the last line
"""
import json
import os
import random
import sys
import time
import traceback

sys.dont_write_bytecode = True
REPO = os.environ.get('PROFILING_REPO', '/repo')
sys.path.insert(0, REPO)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


class Harness(object):

    def __init__(self, prop, tier, seed, hints):
        self.prop, self.tier, self.seed, self.hints = prop, tier, seed, hints
        self.thorough = tier == 'thorough'
        self.rng = random.Random(seed)
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.failures = []
        self.errors = []
        self.deadline = time.time() + (180 if self.thorough else 60)
        self.sections = {}
        self.section = ''
        self.last = None

    def time_left(self):
        return time.time() < self.deadline

    def case(self, what):
        """One evaluation of the real code on an input."""
        self.evaluations += 1
        r = repr(what)
        self.last = what
        h = hash((self.section, r))
        if h not in self.distinct:
            self.distinct.add(h)
            self.sections[self.section] = self.sections.get(self.section, 0) + 1
            if len(self.samples) < 12 and self.sections[self.section] <= 3:
                self.samples.append('%s: %s' % (self.section, r[:300]))

    def fail(self, what, inp):
        if len(self.failures) < 10:
            self.failures.append({'section': self.section, 'what': what, 'input': repr(inp)[:3000]})
            self.note({'failure': self.failures[-1]})

    def note(self, data):
        """for the case that it never comes to an answer"""
        if 'HARNESS_TMP' in os.environ:
            with open(os.path.join(os.environ['HARNESS_TMP'], 'progress'), 'a') as f:
                f.write(json.dumps(data) + '\n')

    def expect(self, cond, what, inp):
        if not cond:
            self.fail(what, inp)
        return bool(cond)

    def equal(self, got, want, what, inp):
        if got != want:
            self.fail('%s: got %r, expected %r' % (what, got, want), inp)
            return False
        return True

    def attempt(self, what, inp, fn, *a, **k):
        """Run real code that must not raise."""
        try:
            return True, fn(*a, **k)
        except Exception as e:
            self.fail('%s: raised %s: %s' % (what, type(e).__name__, e), inp)
            return False, None

    def run(self, fn):
        """Run one section; an error of the harness itself is not a verdict."""
        self.section = fn.__name__
        self.note({'section': self.section})
        self.rng = random.Random('%s/%s/%s' % (self.prop, self.section, self.seed))
        try:
            fn(self)
        except Exception as e:
            self.errors.append('%s: %s' % (self.section, traceback.format_exc(limit=-5)))
            # where did it come from: the code or the harness?
            where = None
            tb = e.__traceback__
            while tb is not None:
                f = tb.tb_frame.f_code.co_filename
                if f.startswith(os.path.join(REPO, 'profiling')) or f.startswith(HERE):
                    where = f
                tb = tb.tb_next
            if where and not where.startswith(HERE) and not isinstance(e, (AttributeError, ImportError)):
                self.fail('raised %s: %s' % (type(e).__name__, e), self.last)


def main():
    import argparse
    import importlib
    p = argparse.ArgumentParser()
    p.add_argument('prop')
    p.add_argument('--tier', default='quick')
    p.add_argument('--seed', type=int, default=1)
    p.add_argument('--hints', default=None)
    a = p.parse_args()
    hints = []
    if a.hints:
        with open(a.hints) as f:
            hints = json.load(f)
    H = Harness(a.prop, a.tier, a.seed, hints)
    out = os.dup(1)
    os.dup2(2, 1)       # nothing the code prints mixes with the answer
    def answer():
        data = dict(evaluations=H.evaluations, distinct=len(H.distinct), samples=H.samples,
                    failures=H.failures, errors=H.errors, sections=H.sections,
                    rule=getattr(sys.modules.get('h' + a.prop[1:].lower()), 'RULE', ''))
        os.write(out, (json.dumps(data) + '\n').encode())
        os._exit(0)

    try:
        m = importlib.import_module('h' + a.prop[1:].lower())
        for fn in m.SECTIONS:
            H.run(fn)
    except Exception:
        H.errors.append('import: ' + traceback.format_exc(limit=-5))
    answer()


if __name__ == '__main__':
    main()
