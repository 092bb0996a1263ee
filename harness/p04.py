from laminates import *
import p03


def observe(co, v):
    nums, ks, th = plain(v)
    ev = {"ev": "xi", "plies": fxs(nums), "err": ""}
    inp = describe(v)

    def go():
        lam = build_laminate(co, v)
        o = {"A": fxs(lam.A), "D": fxs(lam.D), "xiA": fxs(lam.xiA), "xiD": fxs(lam.xiD)}
        m = v["mats"][ks[0]]
        if len(set(ks)) == 1 and m["m"]["kind"] == "o":
            h = sum(p[4] for p in nums)
            tw = co.LaminateProperty({"xiA": lam.xiA, "xiD": list(lam.xiD), "T": h}, build_mat(co, m, units(v))[0])
            o["twin"] = {"A": fxs(tw.A), "D": fxs(tw.D)}
        return o
    return finish(ev, inp, go)


def finish(ev, inp, go):
    r = guarded(go)
    if r[0] == "ok":
        ev.update(r[1])
    else:
        inp["error"] = ev["err"] = r[1] + ": " + r[2]
    return ev, inp


def observe_lp(co, v):
    xa, xd = feasible_lp(v["xa"]), feasible_lp(v["xd"])
    E, L = units(v)
    m, T = v["m"], v["T"] / 1000 * L
    mat = [float(m["e1"]) * E, float(m["e2"]) * E, m["v12"] / 1000, float(m["g12"]) * E]
    st = {"xiD": xd, "T": T}
    if not v["only"]:
        st["xiA"] = xa
    ev = {"ev": "lp", "mat": fxs(mat), "xa": fxs(xa), "xd": fxs(xd), "T": fx(T), "only": v["only"], "err": ""}
    inp = {"material": mat, **{k: st[k] for k in sorted(st)}}

    def go():
        lam = co.LaminateProperty(st, co.OrthotropicMaterial(*mat, v["t"] / 1000 * L))
        o = {"D": fxs(lam.D), "B": fxs(lam.B), "xiD": fxs(lam.xiD)}
        if not v["only"]:
            o.update(A=fxs(lam.A), ABD=fxs(lam.ABD), xiA=fxs(lam.xiA))
        return o
    return finish(ev, inp, go)


def run(chk, deep):
    co = load_repo()
    p03.models(chk, deep)
    pairs = [(observe if g["kind"] == "lam" else observe_lp)(co, g["v"]) for g in p03.draws(deep)]
    chk.samples = [p[1] for p in pairs[:4]]
    chk.conform("Conf_Layup", [p[0] for p in pairs], [p[1] for p in pairs])
