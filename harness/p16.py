from optim import *


def exact(args):
    """A problem given by its very doubles."""
    q = args[0]
    from composipy.optimize import maximize_buckling_load
    ev = {"kind": "max", "mat": fxs(q["E"]), "a": fx(q["a"]), "b": fx(q["b"]), "c": q["spec_c"], "m": q["m"], "n": q["n"],
          "N": fxs(q["N"]), "maxiter": -1, "err": "", "T": fx(q["T"]), "region": q["region"]}
    return record(ev, {k: q[k] for k in q if k != "spec_c"},
                  lambda: outcome(maximize_buckling_load(q["a"], q["b"], q["T"], *q["E"], *q["N"], m=q["m"], n=q["n"],
                                                         panel_constraint=q["constraints"], penalty=q["region"] == "triangle")))


# repaired: SLSQP stopped at a kink of the objective and reported success
HARD = [
    {"a": 899.1622882683431, "b": 308.02405458857817, "T": 4.254236691599816,
     "E": [81667.67662481123, 15284.545690300662, 0.3192782776004353, 9365.966241437218], "N": [-1.0, 0.0, 0.0],
     "m": 3, "n": 3, "constraints": "PINNED", "region": "triangle", "spec_c": ["all", "pinned"]},
    {"a": 790.2168487092209, "b": 778.138648914223, "T": 1.3413891913002731,
     "E": [171249.85460709373, 6050.974671779573, 0.11082661692635826, 5444.023582088557], "N": [-1.0, 0.0, -0.6246851453823943],
     "m": 4, "n": 4, "constraints": {"x0": "pinned", "xa": "pinned", "y0": "pinned", "yb": "free"}, "region": "parabola",
     "spec_c": ["edges", ["word", "pinned"], ["word", "pinned"], ["word", "pinned"], ["word", "free"]]}]


def either(args):
    return exact(args) if isinstance(args[0], dict) else observe(args)


def run(chk, deep):
    load_repo()
    model(chk, deep)
    gs = []
    for size, num in (((3, 250), (4, 200), (5, 30)) if deep else ((3, 48), (4, 24))):
        gs += draws("problem", num, size, size)
    gs.sort(key=lambda p: -p["m"] * p["n"])
    pairs = settle(chk, either, [("max", p) for p in gs], {"no_better_point", "succeeds"}, [(q,) for q in HARD])
    chk.notes["succeeded"] = sum(1 for e, _ in pairs if e.get("ok"))
    chk.samples = [dict(i, result=unfx(e["fun"])) for e, i in pairs[:3] if "fun" in e]
