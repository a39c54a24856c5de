"""A second opinion (thorough tier): every obligation z3 discharged is handed to cvc5 as SMT-LIB text.

counts: 'agrees' (cvc5: unsat too), 'unknown' (cvc5 gave up within its limit), 'DISAGREES', 'skipped' (time ran out)
"""
import time
import z3

LIMIT_MS = 4000
BUDGET_S = 240
_spent = [0.0]


def recheck(path, f, name):
    n = path.ex.stats.second
    if _spent[0] > BUDGET_S:
        n['skipped'] = n.get('skipped', 0) + 1
        return
    t = time.time()
    s = z3.Solver()
    for a in path.facts:
        s.add(a)
    s.add(z3.Not(f))
    r = ask(s.to_smt2().replace('\\|', '~').replace("'", '~'))
    _spent[0] += time.time() - t
    n[r] = n.get(r, 0) + 1


def ask(text):
    try:
        import cvc5
        s = cvc5.Solver()
        s.setOption('tlimit-per', str(LIMIT_MS))
        p = cvc5.InputParser(s)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + text, 'obligation')
        sm = p.getSymbolManager()
        out = None
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            o = c.invoke(s, sm)
            if o.strip() in ('sat', 'unsat', 'unknown'):
                out = o.strip()
            elif 'error' in o:
                return 'not readable'
        return {'unsat': 'agrees', 'sat': 'DISAGREES'}.get(out, 'unknown')
    except Exception as e:
        return 'failed: %s' % str(e)[:300]
