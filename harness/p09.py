from plates import *

MODEL = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT Top = 29\nINVARIANT Inv\n"
PLATE = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT Deg = %d\nCONSTANT Sizes <- %s\nCONSTANT Others <- %s\nINVARIANT PatchTest WorkTest Symmetric\n"


def models(chk, deep):
    chk.model(modelcheck("MC_Bardell", MODEL, workers=1), "MC_Bardell: all pairs of functions up to 29")
    chk.model(modelcheck("MC_Plate", PLATE % ((3, "AllSizes", "Many") if deep else (1, "OneSize", "Few"))), "MC_Plate")


def observe(args):
    co, v = args
    ev, inp = base_event(v), describe_plate(v)

    def go():
        p = build_plate(co, v)
        K, KG = p.calc_K_KG_D()
        return {"D": fxs(p.dproperty.D), "K": fxs(K), "KG": fxs(KG)}
    return record(ev, inp, go)


def sweeps(v, deep):
    """Plates that reach every pair of functions along one direction, and the ends of the range."""
    def held(k):          # edge pair whose only kept single function has index k (0, 1 or 4)
        return {0: (["list"], ["list"]), 1: (["list", "TZ"], ["list"]), 4: (["list", "TZ", "RZ"], ["list", "RZ", "TZ"]),
                2: (["list", "TZ", "RZ"], ["list"]), 3: (["list", "RZ", "TZ"], ["list", "TZ"])}[k]
    free = (["list"], ["list"])
    out = []
    for k, w in ([(0, v[0]), (1, v[1])] if not deep else [(k, v[j]) for j, k in enumerate((0, 1, 2, 3, 4))]):
        out.append(dict(w, c=["edges", *free, *held(k)], m=30, n=1))
        out.append(dict(w, c=["edges", *held(k), *free], m=1, n=30))
    # the largest admissible size for each number of removed functions, and one more
    for j, c in enumerate((free, (["list", "TZ"], ["list"]), (["word", "pinned"], ["word", "pinned"]),
                           (["word", "clamped"], ["list", "RZ"]), (["word", "fixed"], ["word", "clamped"]))):
        for over in (0, 1, 3):
            s = 30 - j + over
            if over or deep:
                out.append(dict(v[j], c=["edges", *c, *held(4)], m=s, n=1))
                out.append(dict(v[j], c=["edges", *held(4), *c], m=1, n=s))
    return out


def draws(deep, size, plies):
    return [g["v"] for g in generate("Gen_Plate", num=1, depth=(400 if deep else 90),
                                     consts="CONSTANT MaxSize = %d\nCONSTANT MaxPlies = %d" % (size, plies)).gen]


def weight(v):
    return (v["m"] * v["n"]) ** 2 + 30 * (v["m"] ** 2 + v["n"] ** 2)


def balanced(vs, n=NCPU):
    """Indices in shards of about equal cost."""
    sh = [[0, []] for _ in range(min(n, len(vs)))]
    for i in sorted(range(len(vs)), key=lambda i: -weight(vs[i])):
        s = min(sh, key=lambda s: s[0])
        s[0] += weight(vs[i])
        s[1].append(i)
    return [sorted(s[1]) for s in sh]


def run(chk, deep):
    co = load_repo()
    models(chk, deep)
    ds = draws(deep, 7 if deep else 5, 6)
    vs = ds + sweeps(ds, deep)
    pairs = pmap(observe, [(co, v) for v in vs])
    chk.samples = [p[1] for p in pairs[:3]] + [pairs[-1][1]]
    chk.conform("Conf_Plate", [p[0] for p in pairs], [p[1] for p in pairs], consts='CONSTANT What = "bending"', chunks=balanced(vs))
