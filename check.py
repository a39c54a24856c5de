#!/usr/bin/env python3-vt
"""Decide one property:  python3-vt check.py PROP   (VERIF_TIER, VERIF_SEED)

1. The verifier (pyv) translates the functions of /repo's current source into proof
   obligations, contract by contract, and discharges them with z3 (thorough: every
   discharged obligation again with cvc5).
2. The same properties are exercised on the real code under PyPy (harness/), always:
   to replay the verifier's counterexamples and as a cross-check of the contracts.
"""
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('PROFILING_REPO', '/repo')
PYPY = os.environ.get('PROFILING_PYTHON', '/opt/venv/bin/python')

TRUSTED = [
    'pyv (the symbolic interpreter and obligation generator of /verif/pyv): its semantics of the Python subset',
    'z3 (python API) as the only deciding solver; cvc5 only repeats its answers in the thorough tier',
    'machine floats treated as real numbers, int as unbounded (Python ints are)',
    'CPython/PyPy built-in containers and str/int/float operations, by the models in pyv/lib.py',
]


def harness(prop, tier, seed, hints):
    f = os.path.join(HERE, 'harness', 'h%s.py' % prop[1:])
    if not os.path.exists(f):
        return None
    with tempfile.TemporaryDirectory() as d:
        hf = os.path.join(d, 'hints.json')
        with open(hf, 'w') as fh:
            json.dump(hints, fh)
        env = dict(os.environ, PROFILING_REPO=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                   HARNESS_TMP=d, LANG='C.UTF-8')
        env.pop('PYTHONPATH', None)
        try:
            p = subprocess.run([PYPY, '-W', 'ignore', os.path.join(HERE, 'harness', 'base.py'), prop,
                                '--tier', tier, '--seed', str(seed), '--hints', hf],
                               capture_output=True, text=True, timeout=260 if tier == 'thorough' else 200, env=env, cwd=d)
        except subprocess.TimeoutExpired:
            notes = []
            try:
                with open(os.path.join(d, 'progress')) as f:
                    notes = [json.loads(l) for l in f]
            except Exception:
                pass
            section = [n['section'] for n in notes if 'section' in n][-1:]
            return {'errors': ['harness timed out in %s' % section], 'failures': [n['failure'] for n in notes if 'failure' in n],
                    'evaluations': 0, 'distinct': 0, 'samples': []}
        try:
            return json.loads(p.stdout.strip().splitlines()[-1])
        except Exception:
            return {'errors': ['harness died: rc=%s %s' % (p.returncode, p.stderr[-1500:])], 'failures': [],
                    'evaluations': 0, 'distinct': 0, 'samples': []}


def known_findings(prop):
    out = []
    f = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                out.append(l.split(' ', 2)[2])
    return out


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--thorough' in sys.argv:
        tier = 'thorough'
    thorough = tier == 'thorough'
    import contracts.common as cc
    from pyv import run
    importlib.import_module('contracts.' + prop.lower())
    cs = cc.CONTRACTS[prop]
    second = None
    if thorough:
        from pyv import second as sec
        second = sec.recheck
    results = run.run_all(cs, REPO, jobs=8, per=500 if thorough else 240, second=second, total=540 if thorough else 400)
    obligations = discharged = invs = 0
    bad, errors, hints, functions, ext = [], [], [], {}, set()
    solver_s = queries = 0
    per = []
    sec_counts = {}
    for c, r in zip(cs, results):
        solver_s += r.solver_s
        queries += r.queries
        functions_of = {}
        for q, how in r.used.items():
            if not q.startswith('profiling'):
                continue  # programs of the contracts, the model of urwid
            functions_of.setdefault(how, []).append(q)
            old = functions.get(q)
            functions[q] = how if old in (None, 'inlined') else old
        ext.update(r.ext_used)
        for k, v in r.second.items():
            sec_counts[k] = sec_counts.get(k, 0) + v
        if r.error is None:
            vac = [k for k, v in r.covers.items() if not v]
            if not r.obls:
                r.error = 'vacuous: no obligation was generated'
            elif vac:
                r.error = 'vacuous: unreachable %s' % vac
        obligations += len(r.obls) + len(r.inv)
        discharged += sum(o['status'] == 'proved' for o in r.obls) + len(r.inv)
        invs += len(r.inv)
        for o in r.obls:
            if o['status'] != 'proved':
                bad.append((c, o))
                if o['hints']:
                    hints.append({'contract': c.name, 'obligation': o['name'], 'values': o['hints']})
        if r.error:
            errors.append('%s: %s' % (c.name, r.error))
        per.append({'contract': c.name, 'proves': c.proves or (c.fn.__doc__ or '').strip(),
                    'obligations': len(r.obls), 'loop_invariants': r.inv,
                    'discharged': sum(o['status'] == 'proved' for o in r.obls), 'paths': r.paths,
                    'solver_s': round(r.solver_s, 3), 'wall_s': round(r.time, 2),
                    'functions': sorted(q for q in r.used if q.startswith('profiling')), 'error': r.error})
    if sec_counts.get('DISAGREES'):
        errors.append('cvc5 disagrees with z3 on %d obligations' % sec_counts['DISAGREES'])
    h = harness(prop, tier, seed, hints) or {}
    failures = h.get('failures', [])
    herr = h.get('errors', [])
    known = known_findings(prop)
    fresh = []
    printed = set()
    for f in failures:
        k = [x for x in known if x and x in f['what'] + ' ' + f['input']]
        if k:
            if k[0] not in printed:
                printed.add(k[0])
                print('KNOWN-FINDING: property=%s %s' % (prop, k[0]))
        else:
            fresh.append(f)

    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    violation = None
    obl_dump = [{'contract': c.name, 'obligation': o['name'], 'at': o['where'], 'status': o['status'],
                 'formula': o['detail'], 'model': o['model'], 'values': o['hints']} for c, o in bad]
    if fresh:
        violation = os.path.join(rdir, prop + '.json')
        with open(violation, 'w') as f:
            json.dump({'property': prop, 'kind': 'failing input on the real code',
                       'failures': fresh, 'undischarged_obligations': obl_dump,
                       'replay': 'cd %s && %s harness/base.py %s --tier %s --seed %d' % (HERE, PYPY, prop, tier, seed)},
                      f, indent=1)
        line = 'VIOLATION property=%s replay=%s' % (prop, violation)
    elif bad or (errors and herr) or (errors and not h):
        violation = os.path.join(rdir, prop + '.json')
        with open(violation, 'w') as f:
            json.dump({'property': prop, 'kind': 'obligation not discharged, no failing input found',
                       'undischarged_obligations': obl_dump, 'errors': errors, 'harness_errors': herr,
                       'replay': 'cd %s && python3-vt -m pyv.run %s' % (HERE, prop)}, f, indent=1)
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, violation)

    level = 'proof'
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'obligations': obligations, 'discharged': discharged,
            'checker_cmd': 'cd %s && python3-vt -m pyv.run %s' % (HERE, prop),
            'trusted_base': TRUSTED + sorted('external: ' + x for x in ext),
            'loop_invariants_established': invs,
            'back_end': 'z3 (python API)' + (' + cvc5 cross-check: %s' % sec_counts if thorough else ''),
            'solver_s': round(solver_s, 3), 'solver_queries': queries,
            'contracts': per,
            'functions_verified': sorted(functions),
            'functions_by_contract_only': sorted(q for q, how in functions.items() if how == 'contract'),
            'not_proved_this_run': errors,
            'bounded': bool(errors),
            'runtime_cross_check': {
                'evaluations': h.get('evaluations', 0), 'distinct': h.get('distinct', 0),
                'rule': h.get('rule', ''), 'sections': h.get('sections', {}), 'harness_errors': herr},
            'evaluations': h.get('evaluations', 0),
            'distinct_nontrivial': h.get('distinct', 0),
            'rule': 'runtime cross-check of the contracts on the real code (bounded, not counted as proved): '
                    + h.get('rule', ''),
            'samples': h.get('samples', [])[:8],
        },
        'assumptions': list(getattr(sys.modules['contracts.' + prop.lower()], 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': (len(fresh) or len(bad) or 1) if violation else 0,
    }
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d/%d obligations discharged by z3 in %d contracts, %d functions under contract, '
          '%.1fs solver; %d runtime cases; %.1fs' % (
              prop, tier, discharged, obligations, len(cs), len(functions), solver_s,
              h.get('evaluations', 0), time.time() - t0))
    for e in errors:
        print('  bounded only: ' + e[:1500])
    for e in herr:
        print('  harness: ' + e[:1500])
    if violation:
        for f in fresh[:3]:
            print('  failing input: %s: %s [%s]' % (f['section'], f['what'][:400], f['input'][:400]))
        for o in obl_dump[:5]:
            print('  undischarged: %s / %s at %s (%s)' % (o['contract'], o['obligation'], o['at'], o['status']))
        print(line)
        sys.stdout.flush()
        os._exit(1)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        os._exit(3)
