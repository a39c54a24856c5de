"""Write MANIFEST.json from the contracts present."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C28': 'The code takes no locks: the claim is about preemptive interleavings of Python threads inside one function '
           '(read-modify-write of shared counters), which sequential contracts cannot express; a deductive verifier with '
           'thread permissions for Python is not available here, and the property is only assumed by the code (GIL).',
    'C29': 'A statistical limit over the behaviour of the operating system timer and scheduler: no contract on the '
           'functions of the repository implies or refutes it.',
}
LEVEL_NOTES = {}


def note(pid):
    try:
        with open(os.path.join(HERE, 'tools', 'notes.json')) as f:
            return json.load(f).get(pid)
    except OSError:
        return None


DEFAULT_NOTE = ('Every obligation generated from the current source is discharged for all inputs and iterations; trusted: '
                'the obligation generator pyv (Python subset semantics), z3, models of built-ins and external modules as '
                'listed in the evidence. A bounded run of the real code cross-checks the contracts and replays '
                'counterexamples; it is not counted as proof.')
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    if os.path.exists(os.path.join(HERE, 'contracts', pid.lower() + '.py')):
        checks.append({
            'property': pid,
            'quick_cmd': 'python3-vt check.py %s' % pid,
            'thorough_cmd': 'python3-vt check.py %s --thorough' % pid,
            'technique': 'contract-based deductive verification of the real source (symbolic execution to verification '
                         'conditions, z3)',
            'level': 'proof',
            'level_note': note(pid) or DEFAULT_NOTE,
        })
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'contracts not written yet (work in progress)')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are needed in /repo: contracts are attached from /verif/contracts to the functions as they are in '
              'the working tree, which is parsed again on every run.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
