from laminates import *
import p03

MODEL = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT MaxPlies = %d\nINVARIANT ByLoads\n"
EPS = ["epsilonx", "epsilony", "gammaxy", "epsilon1", "epsilon2", "gamma12"]
SIG = ["sigmax", "sigmay", "tauxy", "sigma1", "sigma2", "tau12"]
MAR = ["margin_t1", "margin_c1", "margin_t2", "margin_c2", "margin_s"]


def allow(d, E):
    a = {k: x * E for k, x in d["a"].items()}
    if d["m"]["kind"] == "o":
        return [a["t1"], a["c1"], a["t2"], a["c2"], a["s"]]
    return [a["t1"], a["c1"], a["t1"], a["c1"], a["s"]]


def table(df, cols, z=True):
    return [[int(df["ply"].iloc[r]), str(df["position"].iloc[r]), fx(df["angle"].iloc[r])]
            + ([fx(df["z"].iloc[r])] if z else []) + [fx(df[c].iloc[r]) for c in cols] for r in range(len(df))]


def observe(co, v, what):
    nums, ks, th = plain(v)
    E, L = units(v)
    N = [x / 10 * E * L * (L if i > 2 else 1) for i, x in enumerate(v["loads"])]
    ev = {"plies": fxs(nums), "N": fxs(N), "allow": [fxs(allow(v["mats"][k], E)) for k in ks], "err": ""}
    inp = dict(describe(v), loads=N)

    def go():
        s = co.LaminateStrength(build_laminate(co, v), *N)
        if what == "margins":
            mt = s.calculate_maxstressmargin()
            m = table(mt, MAR, z=False)
            for r in range(len(m)):
                m[r].append(str(mt["critical"].iloc[r]))
            return {"margin": m, "stress": table(s.calculate_stress(), SIG)}
        return {"eps0": fxs(s.epsilon0()), "strain": table(s.calculate_strain(), EPS),
                "stress": table(s.calculate_stress(), SIG)}
    r = guarded(go)
    if r[0] == "ok":
        ev.update(r[1])
    else:
        inp["error"] = ev["err"] = r[1] + ": " + r[2]
    return ev, inp


def run(chk, deep, what):
    co = load_repo()
    chk.model(modelcheck("MC_Strength", MODEL % (4 if deep else 2)), "MC_Strength")
    ds = [g["v"] for g in p03.draws(deep) if g["kind"] == "lam"]
    if not deep:
        ds = ds[::2]
    pairs = [observe(co, v, what) for v in ds if any(v["loads"])]
    chk.samples = [p[1] for p in pairs[:4]]
    chk.conform("Conf_Strength", [p[0] for p in pairs], [p[1] for p in pairs], consts='CONSTANT What = "%s"' % what)
