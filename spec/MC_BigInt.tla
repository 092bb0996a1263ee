----------------------------- MODULE MC_BigInt -----------------------------
(***************************************************************************)
(* The arithmetic under everything else.  Every pair (x, y) of a set of    *)
(* boundary magnitudes of one to three limbs is a state; the laws below    *)
(* are invariants, checked once with the plain TLA+ definitions and once   *)
(* with the Java overrides, and the emitted results of the two runs are    *)
(* compared with each other (and with Python's integers) by the driver.    *)
(***************************************************************************)
EXTENDS Fx, Json

D == {0, 1, 2, 16384, 32767}
Mags == {BTrim(m) : m \in {<<>>} \cup {<<i>> : i \in D} \cup {<<i, j>> : i, j \in D}
                          \cup {<<i, j, k>> : i \in {0, 32767}, j \in {0, 1, 32767}, k \in {1, 32767}}}
Nums == {Mk(1, m) : m \in Mags} \cup {Mk(-1, m) : m \in Mags}
VARIABLES x, y
Init == x \in Nums /\ y \in Nums
Next == UNCHANGED <<x, y>>

Canonical(z) == z = <<0>> \/ (z[1] \in {-1, 1} /\ z[Len(z)] # 0 /\ Len(z) > 1)
RingLaws ==
    /\ Canonical(BAdd(x, y)) /\ Canonical(BMul(x, y)) /\ Canonical(BSub(x, y))
    /\ BAdd(x, y) = BAdd(y, x) /\ BMul(x, y) = BMul(y, x)
    /\ BSub(BAdd(x, y), y) = x
    /\ BAdd(x, BNeg(x)) = BZero
    /\ BMul(x, BAdd(y, BOf(1))) = BAdd(BMul(x, y), x)
    /\ BCmp(x, y) = -BCmp(y, x) /\ (BCmp(x, y) = 0) = (x = y)
    /\ BShr(BShl(x, 2), 2) = x
DivLaws ==
    y # BZero =>
      LET q == BDiv(x, y)  r == BSub(x, BMul(q, y)) IN
      /\ Canonical(q)
      /\ BCmp(BAbs(r), BAbs(y)) < 0 /\ (r = BZero \/ r[1] = x[1])
      /\ BDiv(BMul(x, y), y) = x
      /\ BShlDiv(x, y, 2) = BDiv(BShl(x, 2), y)
FusedLaws == BMulShr(x, y, 1) = BShr(BMul(x, y), 1)
Dump == PrintT("GEN " \o ToJson([x |-> x, y |-> y, s |-> BAdd(x, y), d |-> BSub(x, y), p |-> BMul(x, y),
                                 q |-> IF y = BZero THEN BZero ELSE BDiv(x, y), c |-> BCmp(x, y)]))

\* Elementary functions: cos^2 + sin^2 = 1, and the angle addition rule, on a grid of degrees.
DegStep == 25
TrigLaws ==
    \A k \in -15..15 :
       LET a == FCosSinDeg(FInt(k * DegStep))  b == FCosSinDeg(FDivI(FInt(k * 31 + 1), 3))
           ab == FCosSinDeg(FAdd(FInt(k * DegStep), FDivI(FInt(k * 31 + 1), 3)))
           eps == FDivI(FTenTo(40), 1)
       IN /\ FNear(FAdd(FSq(a[1]), FSq(a[2])), FOne, eps, FOne)
          /\ FNear(FSub(FMul(a[1], b[1]), FMul(a[2], b[2])), ab[1], eps, FOne)
          /\ FNear(FAdd(FMul(a[2], b[1]), FMul(a[1], b[2])), ab[2], eps, FOne)
Exact == /\ FCosSinDeg(FInt(90)) = <<FZero, FOne>> /\ FCosSinDeg(FInt(-90)) = <<FZero, FNeg(FOne)>>
         /\ FCosSinDeg(FInt(180)) = <<FNeg(FOne), FZero>> /\ FCosSinDeg(FZero) = <<FOne, FZero>>
         /\ FNear(FMulI(FCosSinDeg(FInt(60))[1], 2), FOne, FTenTo(40), FOne)
ASSUME TrigLaws /\ Exact
=============================================================================
