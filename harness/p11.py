from plates import *

MODEL = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT Dim = %d\nINVARIANT Counted CertifiedOnce\n"


def models(chk, deep):
    chk.model(modelcheck("MC_Buckling", MODEL % (4 if deep else 3)), "MC_Buckling")


def loads(g):
    N = [x / 10 for x in g["p"]["N"]]
    if g["kind"] == "compression":
        N = [-abs(N[0]) - 1, -abs(N[1]) if N[1] < 0 else 0.0, 0.0]
    elif g["kind"] == "shear":
        N = [0.0, 0.0, N[2] or 1.0]
    elif g["kind"] == "mixed":
        N = [-abs(N[0]) - 1, abs(N[1]) / 5, N[2]]
    if not any(N):
        N = [-1.0, 0.0, 0.0]
    E, L = units(g["p"]["lam"])
    return [x * 10.0 ** g["mag"] * E * L for x in N]


def observe(args):
    co, g = args
    v, N = g["p"], loads(g)
    ev, inp = base_event(v), dict(describe_plate(v), N=N, num_eigvalues=g["k"] or "default")
    ev.update(N=fxs(N), k=g["k"] or 5)

    def go():
        p = build_plate(co, v, N=N)
        ev["D"] = fxs(p.dproperty.D)
        r = p.buckling_analysis(num_eigvalues=g["k"]) if g["k"] else p.buckling_analysis()
        vals, vecs = r
        return {"vals": fxs(np.asarray(vals)), "vecs": fxs(np.asarray(vecs)),
                "stored": bool(np.array_equal(p.eigenvalue, vals) and np.array_equal(p.eigenvector, vecs))}
    return record(ev, inp, go)


def weight(g):
    k = g["p"]["m"] * g["p"]["n"]
    return 30 + k ** 2 / 2 + (k ** 3 / 60) * min(g["k"] or 5, k - 2)


def run(chk, deep):
    import p09
    co = load_repo()
    models(chk, deep)
    gs = []
    for size, num in (((5, 250), (8, 60), (10, 40), (13, 16)) if deep else ((4, 160), (6, 60), (10, 18))):
        gs += [g["v"] for g in generate("Gen_Buckling", num=1, depth=num, seed=SEED * 100 + size,
                                        consts="CONSTANT MaxSize = %d\nCONSTANT MaxPlies = 6" % size).gen]
    pairs = pmap(observe, [(co, g) for g in gs])
    chk.samples = [p[1] for p in pairs[:3]]
    p09.weight = weight
    chk.conform("Conf_Buckling", [p[0] for p in pairs], [p[1] for p in pairs], chunks=p09.balanced(gs))
