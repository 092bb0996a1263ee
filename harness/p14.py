from lib import *

MODEL = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT MaxEls = %d
INVARIANT ReadsBack Laws Told NeverEarly Emitted
"""


def observe(bs, g):
    ev = {"text": g["text"], "x": g["x"], "err": "", "errs": [], "got": []}
    r = guarded(lambda: fxs(list(bs(g["text"]))), 20)
    inp = {"text": g["text"]}
    if r[0] == "ok":
        ev["got"] = r[1]
    else:
        inp["error"] = ev["err"] = r[1] + ": " + r[2]
        ev["errs"] = r[1].split("|")
    return ev, inp


def run(chk, deep):
    load_repo()
    from composipy.nastranapi import build_sequence
    m = modelcheck("MC_StackText", MODEL % (3 if deep else 2), timeout=1800)
    chk.model(m, "MC_StackText")
    texts = m.gen if not deep else [g for g in m.gen if len(g["x"]["els"]) < 3 or hash_pick(g["text"], 7)]
    texts = texts + generate("Gen_StackText", num=4, depth=(6000 if deep else 900)).gen
    pairs = [observe(build_sequence, g) for g in texts]
    chk.samples = [p[1] for p in pairs[:2] + pairs[-4:]]
    chk.conform("Conf_StackText", [p[0] for p in pairs], [p[1] for p in pairs])
