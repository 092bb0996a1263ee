from laminates import *

INVS = "Contiguous UpsideDown SymmetricUncoupled MidPoint Positive Feasible FromParameters"
MODEL = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT MaxPlies = %d\nCONSTANT OneMaterial = %s\nINVARIANT " + INVS + "\n"


def models(chk, deep):
    for one, n in (("TRUE", 5 if deep else 3), ("FALSE", 6 if deep else 4)):
        chk.model(modelcheck("MC_Layup", MODEL % (n, one)), "MC_Layup one material=%s, up to %d plies" % (one, n))


def draws(deep):
    r = []
    for mx, num, depth in ((12, 6, 700), (30, 2, 500)) if not deep else ((12, 8, 3000), (40, 8, 3000), (80, 2, 1500)):
        r += generate("Gen_Layup", num=num, depth=depth, consts="CONSTANT MaxPlies = %d" % mx).gen
    return r


def observe(co, v):
    nums, ks, th = plain(v)
    ev = {"ev": "lam", "plies": fxs(nums), "err": ""}
    inp = describe(v)

    def go():
        lam = build_laminate(co, v)
        return {"A": fxs(lam.A), "B": fxs(lam.B), "D": fxs(lam.D), "ABD": fxs(lam.ABD), "z": fxs(list(lam.z_position)),
                "Qk": fxs([q.tolist() for q in lam.Q_layup]), "Tk": fxs([[x.tolist() for x in t] for t in lam.T_layup])}
    r = guarded(go)
    if r[0] == "ok":
        ev.update(r[1])
    else:
        inp["error"] = ev["err"] = r[1] + ": " + r[2]
    return ev, inp


def run(chk, deep):
    co = load_repo()
    models(chk, deep)
    pairs = [observe(co, g["v"]) for g in draws(deep) if g["kind"] == "lam"]
    chk.samples = [p[1] for p in pairs[:4]]
    chk.conform("Conf_Layup", [p[0] for p in pairs], [p[1] for p in pairs])
