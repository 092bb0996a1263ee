from lib import *
import numpy as np

MODEL = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT MaxPlies = %d\nINVARIANT ReadsBack\n"


def observe(bp, v):
    box = {"list": list, "tuple": tuple, "array": np.array}[v["box"]]
    ang = [a / 100 for a in v["ang"]]

    def arg(x, f):
        vals = [f(k) for k in x["v"]]
        return (vals[0] if x["all"] else box(vals)), {"all": x["all"], "v": fxs(vals)}, vals
    mid, emid, imid = arg(v["mid"], int)
    t, et, it = arg(v["t"], lambda k: k / 1e7)
    kw = {}
    if v["pid"]:
        kw["pid"] = v["pid"]
    if v["z0"]["kind"] != "none":
        kw["z0"] = v["z0"]["v"] / 1000 if v["z0"]["kind"] == "float" else v["z0"]["v"]
    o = v["out"]
    out = dict(o)
    if o["kind"] == "default":
        out = {"kind": "FIBER"}
    elif o["kind"] in ("FIBER", "YES", "NO"):
        kw["sout"] = o["kind"]
    else:
        kw["sout"] = o["v"]
    ev = {"n": v["n"], "ang": fxs(ang), "mid": emid, "t": et, "pid": fx(kw.get("pid", 1)),
          "z0": fx(kw["z0"]) if "z0" in kw else [], "out": out, "err": "", "errs": [], "text": ""}
    inp = {"sequence": ang, "midi": imid if not v["mid"]["all"] else mid, "ti": it if not v["t"]["all"] else t,
           "box": v["box"], **kw}
    r = guarded(lambda: bp(box(ang), mid, t, **kw), 20)
    if r[0] == "ok":
        ev["text"] = inp["card"] = str(r[1])
    else:
        inp["error"] = ev["err"] = r[1] + ": " + r[2]
        ev["errs"] = r[1].split("|")
    return ev, inp


def run(chk, deep):
    load_repo()
    from composipy.nastranapi import build_pcomp
    chk.model(modelcheck("MC_Pcomp", MODEL % (5 if deep else 3)), "MC_Pcomp")
    g = []
    for mx, depth in ((6, 2500), (40, 2500)) if not deep else ((6, 20000), (60, 30000)):
        g += generate("Gen_Pcomp", num=2, depth=depth, consts="CONSTANT MaxPlies = %d" % mx).gen
    pairs = [observe(build_pcomp, x["v"]) for x in g]
    chk.samples = [p[1] for p in pairs[:3]]
    chk.conform("Conf_Pcomp", [p[0] for p in pairs], [p[1] for p in pairs])
