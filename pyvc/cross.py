"""second solver: every "unsat" of z3 is put to cvc5 as well (thorough tier)"""
import hashlib, os, time

ON = os.environ.get("VERIF_CROSS") == "1"
STATS = dict(cvc5_calls=0, cvc5_confirmed=0, cvc5_contradicted=0, cvc5_time=0.0)
SEEN = {}
LIMIT = 1500


def contradicted(solver):
    """True if cvc5 finds the assertions, which z3 found unsatisfiable, satisfiable"""
    if not ON:
        return False
    try:
        import cvc5
    except ImportError:
        return False
    t = time.time()
    txt = solver.to_smt2()
    key = hashlib.sha1(txt.encode()).digest()
    r = SEEN.get(key)
    if r is None:
        r = SEEN[key] = answer(cvc5, txt)
        STATS["cvc5_calls"] += 1
        STATS["cvc5_confirmed"] += r == "unsat"
        STATS["cvc5_contradicted"] += r == "sat"
        STATS["cvc5_time"] += time.time() - t
    return r == "sat"


def answer(cvc5, txt):
    try:
        s = cvc5.Solver(cvc5.TermManager()) if hasattr(cvc5, "TermManager") else cvc5.Solver()
        s.setOption("tlimit-per", str(LIMIT))
        p = cvc5.InputParser(s)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + txt, "query")
        sm, r = p.getSymbolManager(), ""
        while True:
            c = p.nextCommand()
            if c.isNull():
                return r
            o = c.invoke(s, sm).strip()
            r = o or r
    except Exception as e:
        return "error " + str(e)[:100]
