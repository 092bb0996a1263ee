"""Setup and self-test: the arithmetic module, with and without its Java override, against Python's integers."""
import sys
from concurrent.futures import ThreadPoolExecutor
from lib import *

CFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT RingLaws\nINVARIANT DivLaws\nINVARIANT FusedLaws\nINVARIANT Dump\n"


def num(t):
    n = 0
    for x in reversed(t[1:]):
        n = n << 15 | x
    return t[0] * n


def main():
    with ThreadPoolExecutor(2) as ex:
        a, b = ex.map(lambda o: tlc_ok(tlc("MC_BigInt", CFG, workers=4, override=o, timeout=1200), "MC_BigInt"), (True, False))
    ka = {str((g["x"], g["y"])): g for g in a.gen}
    kb = {str((g["x"], g["y"])): g for g in b.gen}
    if ka != kb or len(ka) != a.distinct:
        raise MachineryError("plain and overridden arithmetic differ")
    for g in a.gen:
        x, y = num(g["x"]), num(g["y"])
        q = 0 if y == 0 else (abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1)
        if [num(g[k]) for k in "sdpq"] != [x + y, x - y, x * y, q] or g["c"] != (x > y) - (x < y):
            raise MachineryError("wrong arithmetic on %d, %d" % (x, y))
    print("arithmetic: %d pairs agree (override %.1fs, plain TLA+ %.1fs)" % (len(ka), a.wall, b.wall))


if __name__ == "__main__":
    main()
