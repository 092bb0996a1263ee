from lib import *

MODEL = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT InverseOfCompliance PositiveDefinite Minor TwoRoutes InvariantRoute EnergyDual RotationInvariants IsoUnturned
"""


def observe(co, v):
    m, u = v["m"], 10.0 ** v["unit"]
    e1, e2, v12, g12, t = m["e1"] * u, m["e2"] * u, m["v12"] / 1000, m["g12"] * u, v["t"] / 1000
    ev = {"kind": m["kind"], "e1": fx(e1), "e2": fx(e2), "v12": fx(v12), "g12": fx(g12), "err": "",
          "cs": [fx(a / 100) for a in v["angles"]]}
    inp = {"kind": m["kind"], "e1": e1, "e2": e2, "v12": v12, "g12": g12, "t": t}

    def go():
        if m["kind"] == "o":
            p = co.OrthotropicMaterial(e1, e2, v12, g12, t)
            return {"Q": fxs(p.Q_0), "v21": fx(p.v21), "U": fxs(p.Invariants())}
        p = co.IsotropicMaterial(e1, v12, g12, t, 1, 1, 1)
        o = co.OrthotropicMaterial(e1, e1, v12, g12, t)
        return {"Q": fxs(p.Q_0), "Qo": fxs(o.Q_0)}
    r = guarded(go)
    if r[0] == "ok":
        ev.update(r[1])
    else:
        ev["err"] = r[1] + ": " + r[2]
        inp["error"] = ev["err"]
    return ev, inp


def run(chk, deep):
    co = load_repo()
    chk.model(modelcheck("MC_Material", MODEL), "MC_Material")
    g = generate("Gen_Material", num=8, depth=(400 if deep else 60))
    pairs = [observe(co, x["v"]) for x in g.gen]
    chk.samples = [p[1] for p in pairs[:4]]
    chk.conform("Conf_Material", [p[0] for p in pairs], [p[1] for p in pairs])
