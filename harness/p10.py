from plates import *
import p09


def observe(args):
    co, v = args
    ev, inp = base_event(v), describe_plate(v)

    def go():
        p = build_plate(co, v)
        K, KG = p.calc_K_KG_ABD()
        q = build_plate(co, v)
        Kb, KGb = q.calc_K_KG_D()
        L = p.dproperty
        return {"A": fxs(L.A), "B": fxs(L.B), "D": fxs(L.D), "K": fxs(K), "KG": fxs(KG), "Kb": fxs(Kb), "KGb": fxs(KGb)}
    return record(ev, inp, go)


def run(chk, deep):
    co = load_repo()
    p09.models(chk, deep)
    ds = p09.draws(deep, 5 if deep else 4, 5)
    if not deep:
        ds = ds[:54]
    sw = []
    held = ([], ["TX"], ["TY", "TZ", "RX"], ["TX", "TY"], ["TZ"], ["TX", "TY", "TZ", "RX", "RY", "RZ"])
    for k, v in enumerate(ds[:6 if deep else 3]):          # every pair of functions in one direction
        e, f = ["list"] + held[k], ["list"]
        sw += [dict(v, c=["edges", f, f, e, f], m=30, n=1)][:1 if deep or k != 1 else 0]
        sw += [dict(v, c=["edges", e, f, f, f], m=1, n=30)][:1 if deep or k != 0 else 0]
    vs = ds + sw
    pairs = pmap(observe, [(co, v) for v in vs])
    chk.samples = [p[1] for p in pairs[:4]]
    chk.conform("Conf_Plate", [p[0] for p in pairs], [p[1] for p in pairs], consts='CONSTANT What = "coupled"', chunks=p09.balanced(vs))
