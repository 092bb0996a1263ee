from optim import *


def run(chk, deep):
    load_repo()
    model(chk, deep)
    gs = []
    for size, num in (((3, 250), (4, 120)) if deep else ((3, 64), (4, 14))):
        gs += draws("problem", num, size, 100 + size)
    gs.sort(key=lambda p: -p["m"] * p["n"])
    pairs = settle(chk, observe, [("min", p) for p in gs], {"none_thinner", "succeeds"})
    chk.notes["succeeded"] = sum(1 for e, _ in pairs if e.get("ok"))
    chk.samples = [dict(i, result=unfx(e["fun"])) for e, i in pairs[:3] if "fun" in e]
