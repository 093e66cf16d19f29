"""Second opinion: unsat verdicts are put to cvc5 as well (thorough tier)."""
import sys


def make(limit=200):
    try:
        sp = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
        sys.path.append(sp)
        import cvc5
        sys.path.remove(sp)
    except Exception:
        return None
    from . import engine as E
    z3 = E.z3
    count = [0]

    def second(path, extra):
        if count[0] >= limit:
            return
        count[0] += 1
        s = z3.Solver()
        s.add(*path.cond)
        s.add(*extra)
        text = s.to_smt2()
        try:
            tm = cvc5.TermManager()
            slv = cvc5.Solver(tm)
            slv.setOption('tlimit-per', '3000')
            slv.setLogic('QF_NIRA')
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'q')
            sm = p.getSymbolManager()
            res = None
            while True:
                cmd = p.nextCommand()
                if cmd.isNull():
                    break
                name = cmd.getCommandName()
                if name in ('set-logic', 'set-info'):
                    continue
                r = cmd.invoke(slv, sm)
                if name == 'check-sat':
                    res = str(r).strip()
        except Exception:
            return
        if res == 'unsat':
            path.ex.stats['second'] += 1
        elif res == 'sat':
            path.ex.stats['second_disagree'] += 1
            path.ex.errors.append(('second solver disagrees', text[:300]))
    return second
