------------------------------- MODULE BigInt -------------------------------
(***************************************************************************)
(* Unbounded integers for TLC, whose native integers are 32 bits wide.     *)
(*                                                                         *)
(* A big integer is a tuple <<sign, l0, l1, ..., lk>> with sign in         *)
(* {-1,0,1} and the magnitude in base 2^15, least significant limb first.  *)
(* The representation is canonical: zero is <<0>>, and the most            *)
(* significant limb is never 0, so TLA+ equality is numeric equality.      *)
(*                                                                         *)
(* Every operator is defined below in plain TLA+ and runs in unmodified    *)
(* TLC.  java/BigInt.java overrides the operators named B* with            *)
(* java.math.BigInteger, for speed only; MC_BigInt.tla checks both against *)
(* the same laws and the driver compares their outputs.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Base == 32768

LOCAL Max2(a, b) == IF a >= b THEN a ELSE b

\* ---- magnitudes
RECURSIVE BTrim(_)
BTrim(m) == IF m = <<>> THEN m
            ELSE IF m[Len(m)] = 0 THEN BTrim(SubSeq(m, 1, Len(m) - 1)) ELSE m

LOCAL Limb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

RECURSIVE MagCmpFrom(_, _, _)
MagCmpFrom(a, b, i) == IF i = 0 THEN 0
                       ELSE IF a[i] < b[i] THEN -1
                       ELSE IF a[i] > b[i] THEN 1 ELSE MagCmpFrom(a, b, i - 1)
MagCmp(a, b) == IF Len(a) < Len(b) THEN -1
                ELSE IF Len(a) > Len(b) THEN 1 ELSE MagCmpFrom(a, b, Len(a))

RECURSIVE MagAddFrom(_, _, _, _, _)
MagAddFrom(a, b, i, carry, acc) ==
    IF i > Max2(Len(a), Len(b))
    THEN IF carry = 0 THEN acc ELSE Append(acc, carry)
    ELSE LET s == Limb(a, i) + Limb(b, i) + carry
         IN MagAddFrom(a, b, i + 1, TLCEval(s \div Base), TLCEval(Append(acc, s % Base)))
MagAdd(a, b) == MagAddFrom(a, b, 1, 0, <<>>)

RECURSIVE MagSubFrom(_, _, _, _, _)           \* requires a >= b
MagSubFrom(a, b, i, borrow, acc) ==
    IF i > Len(a) THEN BTrim(acc)
    ELSE LET s == a[i] - Limb(b, i) - borrow
         IN MagSubFrom(a, b, i + 1, TLCEval(IF s < 0 THEN 1 ELSE 0), TLCEval(Append(acc, s % Base)))
MagSub(a, b) == MagSubFrom(a, b, 1, 0, <<>>)

RECURSIVE MagMulDigit(_, _, _, _, _)
MagMulDigit(a, d, i, carry, acc) ==
    IF i > Len(a) THEN IF carry = 0 THEN acc ELSE Append(acc, carry)
    ELSE LET s == a[i] * d + carry
         IN MagMulDigit(a, d, i + 1, TLCEval(s \div Base), TLCEval(Append(acc, s % Base)))

LOCAL Zeros(n) == TLCEval([i \in 1..n |-> 0])

RECURSIVE MagMulFrom(_, _, _, _)
MagMulFrom(a, b, i, acc) ==
    IF i > Len(b) THEN acc
    ELSE MagMulFrom(a, b, i + 1,
            TLCEval(MagAdd(acc, Zeros(i - 1) \o MagMulDigit(a, b[i], 1, 0, <<>>))))
MagMul(a, b) == BTrim(MagMulFrom(a, b, 1, <<>>))

\* Largest digit d with b*d <= r, by bisection.
RECURSIVE QDigit(_, _, _, _)
QDigit(r, b, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == TLCEval((lo + hi + 1) \div 2)
         IN IF MagCmp(BTrim(MagMulDigit(b, mid, 1, 0, <<>>)), r) <= 0
            THEN QDigit(r, b, mid, hi) ELSE QDigit(r, b, lo, mid - 1)

RECURSIVE MagDivFrom(_, _, _, _, _)
MagDivFrom(a, b, i, r, q) ==
    IF i = 0 THEN BTrim(q)
    ELSE LET r1 == TLCEval(BTrim(<<a[i]>> \o r))
             d  == TLCEval(QDigit(r1, b, 0, Base - 1))
         IN MagDivFrom(a, b, i - 1,
                       TLCEval(MagSub(r1, BTrim(MagMulDigit(b, d, 1, 0, <<>>)))),
                       TLCEval(<<d>> \o q))
MagDiv(a, b) == MagDivFrom(a, b, Len(a), <<>>, <<>>)

\* ---- integers
Mag(x) == Tail(x)
Mk(s, m) == IF m = <<>> THEN <<0>> ELSE <<s>> \o m

RECURSIVE NatLimbs(_)
NatLimbs(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o NatLimbs(n \div Base)

BZero == <<0>>
BOf(n) == IF n = 0 THEN BZero ELSE IF n > 0 THEN Mk(1, NatLimbs(n)) ELSE Mk(-1, NatLimbs(-n))

BNeg(x) == Mk(-x[1], Mag(x))
BAbs(x) == IF x[1] < 0 THEN BNeg(x) ELSE x
BSgn(x) == x[1]

BAdd(x, y) ==
    IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x
    ELSE IF x[1] = y[1] THEN Mk(x[1], MagAdd(Mag(x), Mag(y)))
    ELSE LET c == MagCmp(Mag(x), Mag(y))
         IN IF c = 0 THEN BZero
            ELSE IF c > 0 THEN Mk(x[1], MagSub(Mag(x), Mag(y)))
            ELSE Mk(y[1], MagSub(Mag(y), Mag(x)))
BSub(x, y) == BAdd(x, BNeg(y))
BMul(x, y) == IF x[1] = 0 \/ y[1] = 0 THEN BZero
              ELSE Mk(x[1] * y[1], MagMul(Mag(x), Mag(y)))
\* Quotient truncated towards zero; y # 0.
BDiv(x, y) == IF x[1] = 0 THEN BZero ELSE Mk(x[1] * y[1], MagDiv(Mag(x), Mag(y)))
\* x * Base^n, n >= 0
BShl(x, n) == IF x[1] = 0 THEN BZero ELSE <<x[1]>> \o Zeros(n) \o Mag(x)
\* x / Base^n truncated towards zero, n >= 0
BShr(x, n) == IF Len(x) - 1 <= n THEN BZero ELSE <<x[1]>> \o SubSeq(x, n + 2, Len(x))
\* Product scaled down, and quotient of a scaled-up dividend (n limbs).
BMulShr(x, y, n) == BShr(BMul(x, y), n)
BShlDiv(x, y, n) == BDiv(BShl(x, n), y)
\* -1, 0, 1
BCmp(x, y) == BSgn(BSub(x, y))
=============================================================================
