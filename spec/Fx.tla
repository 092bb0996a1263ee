--------------------------------- MODULE Fx ---------------------------------
(***************************************************************************)
(* Fixed-point reals: the big integer X stands for the real X / 2^165.     *)
(* Products and quotients are truncated, so each operation is off by less  *)
(* than one unit in the 165th binary place (about 2e-50).  Observed        *)
(* doubles are encoded exactly (up to that last place) by the harness; the *)
(* specification's own error is therefore far below any tolerance used     *)
(* when an observation is compared with a specified value.                 *)
(* Non-finite observations are <<9>> (+inf), <<-9>> (-inf), <<8>> (nan).   *)
(***************************************************************************)
EXTENDS BigInt, SequencesExt

FL == 11                                   \* limbs after the binary point

IsFx(x) == x[1] \in {-1, 0, 1}
PInf == <<9>>
NInf == <<-9>>
NaN  == <<8>>

FInt(n)    == BShl(BOf(n), FL)
FZero      == BZero
FOne       == FInt(1)
FAdd(x, y) == BAdd(x, y)
FSub(x, y) == BSub(x, y)
FNeg(x)    == BNeg(x)
FAbs(x)    == BAbs(x)
FMul(x, y) == BMulShr(x, y, FL)
FDiv(x, y) == BShlDiv(x, y, FL)
FMulI(x, n) == BMul(x, BOf(n))
FDivI(x, n) == BDiv(x, BOf(n))
FRat(p, q) == BDiv(FInt(p), BOf(q))        \* p/q for small integers
FSq(x)     == FMul(x, x)
FCube(x)   == FMul(x, FMul(x, x))
FLe(x, y)  == BCmp(x, y) <= 0
FLt(x, y)  == BCmp(x, y) < 0
FMax(x, y) == IF FLe(x, y) THEN y ELSE x
FMin(x, y) == IF FLe(x, y) THEN x ELSE y

FSum(s) == FoldLeft(LAMBDA acc, x : FAdd(acc, x), FZero, s)
\* Largest magnitude in a sequence of reals.
FMaxAbs(s) == FoldLeft(LAMBDA acc, x : FMax(acc, FAbs(x)), FZero, s)

\* 10^-k for 0 <= k <= 9, and for larger k by composition
RECURSIVE FTenTo(_)
FTenTo(k) == IF k = 0 THEN FOne ELSE FDivI(FTenTo(k - 1), 10)

\* |obs - val| <= tol * scale
FNear(obs, val, tol, scale) == IsFx(obs) /\ FLe(FAbs(FSub(obs, val)), FMul(tol, FAbs(scale)))

\* ---- elementary
\* pi by Machin: 16 atan(1/5) - 4 atan(1/239)
RECURSIVE AtanInvFrom(_, _, _, _, _)
AtanInvFrom(q2, term, k, sgn, acc) ==
    IF term[1] = 0 THEN acc
    ELSE AtanInvFrom(q2, TLCEval(FDivI(term, q2)), k + 2, -sgn,
                     TLCEval(FAdd(acc, FMulI(FDivI(term, k), sgn))))
AtanInv(q) == AtanInvFrom(q * q, FDivI(FOne, q), 1, 1, FZero)
FPi == FSub(FMulI(AtanInv(5), 16), FMulI(AtanInv(239), 4))

\* Taylor series; the argument is reduced to |x| <= pi/4 or so by the callers.
RECURSIVE TaylorFrom(_, _, _, _)
TaylorFrom(x2, term, k, acc) ==
    IF term[1] = 0 THEN acc
    ELSE TaylorFrom(x2, TLCEval(FDivI(FNeg(FMul(term, x2)), (k + 1) * (k + 2))), k + 2,
                    TLCEval(FAdd(acc, term)))
FSinT(x) == TaylorFrom(FSq(x), x, 1, FZero)
FCosT(x) == TaylorFrom(FSq(x), FOne, 0, FZero)

\* Degrees -> <<cos, sin>>.  The angle is first reduced exactly, in degrees, to
\* [-45, 45] plus a quarter turn count.
FFloor(x) == LET t == BShr(x, FL) IN IF x[1] < 0 /\ BShl(t, FL) # x THEN BSub(t, BOf(1)) ELSE t
BMod4(b) == LET q == FFloor(BDiv(BShl(b, FL), BOf(4))) IN BSub(b, BMul(q, BOf(4)))
FCosSinDeg(d) ==
    LET k == FFloor(FDivI(FAdd(d, FInt(45)), 90))
        r == FSub(d, FMulI(BShl(k, FL), 90))
        x == TLCEval(FDivI(FMul(r, FPi), 180))
        c == TLCEval(FCosT(x))
        s == TLCEval(FSinT(x))
        q == BMod4(k)
    IN  CASE q = BOf(0) -> <<c, s>>
          [] q = BOf(1) -> <<FNeg(s), c>>
          [] q = BOf(2) -> <<FNeg(c), FNeg(s)>>
          [] q = BOf(3) -> <<s, FNeg(c)>>
=============================================================================
