"""Walks through changes of a plate; every step is analysed with the real code and held against the step's law."""
from plates import *

MODEL = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT Sizes <- %s\nCONSTANT Depth = %d\nINVARIANT Lawful Involutions\n"


def scaled(sc):
    x = 1.0
    for k in sc:
        x *= k / 1000
    return x


def real_plate(co, v):
    E, T, A, S = (scaled(v[k]) for k in ("sE", "sT", "sA", "sN"))
    u, L = units(v["lam"])
    E, T, S = E * u, T * L, S * u * L
    nums, ks, th = plain(v["lam"])
    mats = []
    for d in v["lam"]["mats"]:
        m = d["m"]
        mats.append(co.OrthotropicMaterial(m["e1"] * E, m["e2"] * E, m["v12"] / 1000, m["g12"] * E, d["t"] / 1000 * T))
    lam = co.LaminateProperty(th, mats[0] if v["lam"]["single"] else [mats[k] for k in ks])
    return build_plate(co, dict(v, a=v["a"] * A, b=v["b"] * A), lam=lam, N=[x / 10 * S for x in v["N"]])


def observe(args):
    co, g = args
    fs = []
    for v in [g["p"]] + [s["p"] for s in g["steps"]]:
        r = guarded(lambda: np.asarray(real_plate(co, v).buckling_analysis(num_eigvalues=g["k"])[0]), 120)
        fs.append(fxs(r[1]) if r[0] == "ok" else [])
    base = dict(describe_plate(g["p"]), num_eigvalues=g["k"])
    out = []
    names = [s["s"] for s in g["steps"]]
    for i, s in enumerate(names):
        out.append(({"steps": [s], "before": fs[i], "after": fs[i + 1]}, dict(base, steps=names[:i], last=s)))
    if not any(s[0].startswith("grow") for s in names):
        out.append(({"steps": names, "before": fs[0], "after": fs[-1]}, dict(base, steps=names, last="whole walk")))
    return out


def run(chk, deep):
    co = load_repo()
    chk.model(modelcheck("MC_Similarity", MODEL % (("Bigger", 2) if deep else ("Small", 1))), "MC_Similarity: laws follow from the energies")
    gs = []
    for size, num, steps in (((5, 150, 8), (9, 80, 8), (14, 16, 4)) if deep else ((5, 30, 5), (8, 16, 5))):
        gs += [g["v"] for g in generate("Gen_Similarity", num=1, depth=num, seed=SEED * 100 + size,
                                        consts="CONSTANT MaxSize = %d\nCONSTANT MaxPlies = 6\nCONSTANT Steps = %d" % (size, steps)).gen]
    gs.sort(key=lambda g: -g["p"]["m"] * g["p"]["n"])
    pairs = [e for r in pmap(observe, [(co, g) for g in gs]) for e in r]
    chk.notes["without_factors"] = sum(1 for p in pairs if not p[0]["before"])
    chk.samples = [p[1] for p in pairs[-3:]]
    chk.conform("Conf_Similarity", [p[0] for p in pairs], [p[1] for p in pairs])
