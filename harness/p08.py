from plates import *

MODEL = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT Size = %d\nINVARIANT Confluent RightSize Exact Independent\n"
# one unsymmetric two-ply laminate with distinct A11, A22, A66, D11, D22, D66
LAM = {"mats": [{"m": {"kind": "o", "e1": 130000, "e2": 9000, "v12": 310, "g12": 5100}, "t": 300, "a": None},
                {"m": {"kind": "o", "e1": 70000, "e2": 30000, "v12": 120, "g12": 9000}, "t": 170, "a": None}],
       "lam": [{"k": 1, "th": 1700}, {"k": 2, "th": -4200}], "container": "list", "single": False}


def observe(args):
    co, v = args
    v = dict(v, a=410, b=290, N=[-10, 20, 30], lam=LAM)
    ev, inp = base_event(v), {"constraints": constraints(v["c"], v["style"]), "m": v["m"], "n": v["n"]}

    def idx(p):
        return [[[int(i), int(j)] for i, j in s] for s in (p.su_idx, p.sv_idx, p.sw_idx)]

    def go():
        p = build_plate(co, v)
        L = p.dproperty
        K, _ = p.calc_K_KG_ABD()
        q = build_plate(co, v)
        Kw, _ = q.calc_K_KG_D()
        return {"A": fxs(L.A), "B": fxs(L.B), "D": fxs(L.D), "idx": idx(p), "idx2": idx(q),
                "diag": fxs(np.diag(K)), "diagw": fxs(np.diag(Kw))}
    return record(ev, inp, go)


def run(chk, deep):
    co = load_repo()
    chk.model(modelcheck("MC_Supports", MODEL % (6 if deep else 3)), "MC_Supports: 4096 edge pairs, all orders of restraints")
    pairs, mixed = (4096, 3000) if deep else (1024, 500)
    vs = [g["v"] for g in generate("Gen_Supports", num=1, depth=pairs + mixed + 2,
                                   consts="CONSTANT Pairs = %d\nCONSTANT Mixed = %d" % (pairs, mixed)).gen]
    pairs = pmap(observe, [(co, v) for v in vs])
    chk.samples = [p[1] for p in pairs[:2]] + [p[1] for p in pairs[-3:]]
    chk.conform("Conf_Supports", [p[0] for p in pairs], [p[1] for p in pairs])
