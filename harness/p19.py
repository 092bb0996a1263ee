from lib import *
import numpy as np

MODEL = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT Steps = %d\nINVARIANT Laws OneChangeSeen\n"
SCALE_O = (1, 1, 1e-3, 1, 1e-3, 1, 1, 1, 1, 1)
SCALE_I = (1, 1e-3, 1, 1e-3, 1, 1, 1)


TRIFLE = 500000000


def num(x, scale):
    """The number x stands for: x units of the scale, or the double next to that."""
    if x > TRIFLE // 2:
        return float(np.nextafter((x - TRIFLE) * scale, np.inf))
    return x if scale == 1 else x * scale


def mat(co, d, k):
    sc = SCALE_O if d["kind"] == "ortho" else SCALE_I
    nums = [num(x, s) for x, s in zip(d["num"], sc)]
    if k % 2:
        nums = [float(x) for x in nums]
    cls = co.OrthotropicMaterial if d["kind"] == "ortho" else co.IsotropicMaterial
    return cls(*nums, d["name"] or None)


def make(co, d, k):
    if d["kind"] in ("ortho", "iso"):
        return mat(co, d, k)
    if d["kind"] == "lp":
        st = {"xiD": [num(x, 1e-3) for x in d["xd"]], "T": num(d["T"], 1e-3)}
        if d["xa"]:
            st["xiA"] = [num(x, 1e-3) for x in d["xa"]]
        return co.LaminateProperty(st, mat(co, d["mat"], k))
    ang = [num(x, 0.01) for x in d["ang"]]
    ms = [mat(co, m, k) for m in d["mats"]]
    if d["one"]:
        return co.LaminateProperty(ang, ms[d["of"][0] - 1])
    if k % 3 == 1:                                   # a separate but equal object for every ply
        return co.LaminateProperty(tuple(ang), [mat(co, d["mats"][i - 1], k + 1) for i in d["of"]])
    return co.LaminateProperty(np.array(ang) if k % 3 else ang, [ms[i - 1] for i in d["of"]])


def op(f):
    r = guarded(f, 20)
    if r[0] != "ok":
        return r[1].split("|")[0]
    return {True: "T", False: "F"}.get(r[1] if isinstance(r[1], (bool, np.bool_)) else None, "?" + type(r[1]).__name__)


def observe(co, objs, k):
    ev = {"objs": objs, "err": "", "eq": [], "ne": [], "stiff": [], "alien": [], "mat": "F"}
    inp = {"base": objs[0], "variants": len(objs)}

    def go():
        os_ = [make(co, d, k + i) for i, d in enumerate(objs)]
        lam = objs[0]["kind"] in ("stack", "lp")

        def stiff(o):
            return fxs([o.A.tolist(), o.B.tolist(), o.D.tolist()]) if lam else []
        o = {}
        if k % 2:
            o["stiff"] = [stiff(x) for x in os_]
        o["eq"] = [[op(lambda: x == y) for y in os_] for x in os_]
        o["ne"] = [[op(lambda: x != y) for y in os_] for x in os_]
        if not k % 2:
            o["stiff"] = [stiff(x) for x in os_]
        if lam:
            x = os_[0]
            o["alien"] = [[op(lambda: x == z), op(lambda: x != z), op(lambda: z == x)]
                          for z in (None, 3, "x", [1], {}, x.stacking if isinstance(x.stacking, (list, dict, tuple)) else 0, object())]
            o["mat"] = op(lambda: x == co.OrthotropicMaterial(1., 1., .1, 1., 1.))
        return o
    r = guarded(go)
    if r[0] == "ok":
        ev.update(r[1])
        wrong = [(i, j) for i in range(len(objs)) for j in range(len(objs)) if ev["eq"][i][j] not in ("T", "F")]
        inp["objects"] = objs if len(objs) < 60 else objs[:60]
        inp["errors"] = wrong[:3]
    else:
        inp["error"] = ev["err"] = r[1] + ": " + r[2]
    return ev, inp


def run(chk, deep):
    co = load_repo()
    chk.model(modelcheck("MC_Equality", MODEL % (3 if deep else 2)), "MC_Equality")
    g = generate("Gen_Equality", num=1, depth=(2500 if deep else 250)).gen
    pairs = [observe(co, x["v"], k) for k, x in enumerate(g)]
    chk.samples = [{"base": p[1]["base"], "variants": p[1]["variants"]} for p in pairs[:4]]
    chk.conform("Conf_Equality", [p[0] for p in pairs], [p[1] for p in pairs])
