"""second back end: cvc5 through its z3-independent Python API"""
import cvc5


def check(smt2, timeout_ms):
    tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
    slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
    slv.setOption('tlimit-per', str(timeout_ms))
    slv.setOption('fp-exp', 'true')
    slv.setLogic('ALL')
    ip = cvc5.InputParser(slv)
    ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt2, 'q')
    sm = ip.getSymbolManager()
    out = 'unknown'
    while True:
        c = ip.nextCommand()
        if c.isNull():
            break
        r = c.invoke(slv, sm)
        r = str(r).strip()
        if r in ('sat', 'unsat', 'unknown'):
            out = r
        elif r.startswith('(error'):
            return 'unknown'
    return out
