------------------------------ MODULE MC_Bardell ----------------------------
(* The function family, one index (and one pair) at a time.                 *)
EXTENDS Bardell
CONSTANT Top
VARIABLES i, k
vars == <<i, k>>
Init == LoadShapes /\ i = 0 /\ k = 0
Next == IF k < i THEN k' = k + 1 /\ i' = i ELSE i < Top /\ i' = i + 1 /\ k' = 0
Tiny == FTenTo(30)
Small(x) == FLe(FAbs(x), Tiny)
f(n) == Shape(n)
Ends == k # 0 \/
        LET v0 == PolyAt(f(i), FNeg(FOne))  v1 == PolyAt(f(i), FOne)
            s0 == PolyAt(Deriv(f(i)), FNeg(FOne))  s1 == PolyAt(Deriv(f(i)), FOne)
            u(n) == IF n = i THEN FOne ELSE FZero
        IN Small(FSub(v0, u(0))) /\ Small(FSub(FMulI(s0, 2), u(1))) /\ Small(FSub(v1, u(2))) /\ Small(FSub(FMulI(s1, 2), u(3)))
\* Legendre polynomials by the three-term recurrence
RECURSIVE Legendre(_, _)
Legendre(n, x) == IF n = 0 THEN FOne ELSE IF n = 1 THEN x
                  ELSE TLCEval(FDivI(FSub(FMulI(FMul(x, Legendre(n - 1, x)), 2 * n - 1), FMulI(Legendre(n - 2, x), n - 1)), n))
SecondIsLegendre == (k = 0 /\ i >= 4 /\ i <= 16) =>
    \A p \in {-7, -2, 0, 1, 3, 9, 10} :
        Small(FSub(PolyAt(Deriv(Deriv(f(i))), FRat(p, 10)), Legendre(i - 2, FRat(p, 10))))
Orthogonal == (i >= 4 /\ k >= 4) =>
    Small(FSub(Integral(2, 2, i, k)[1], IF i = k THEN FRat(2, 2 * i - 3) ELSE FZero))
\* integration by parts against the end values
At(n, d, x) == LET c == IF d = 0 THEN f(n) ELSE IF d = 1 THEN Deriv(f(n)) ELSE Deriv(Deriv(f(n))) IN PolyAt(c, x)
ByParts == \A pq \in {<<1, 0>>, <<2, 0>>, <<2, 1>>} :
    LET p == pq[1]  q == pq[2]
        ends == FSub(FMul(At(i, p - 1, FOne), At(k, q, FOne)), FMul(At(i, p - 1, FNeg(FOne)), At(k, q, FNeg(FOne))))
    IN Small(FSub(Integral(p, q, i, k)[1], FSub(ends, Integral(p - 1, q + 1, i, k)[1])))
Exchange == \A p \in 0..2 : \A q \in 0..2 : Small(FSub(Integral(p, q, i, k)[1], Integral(q, p, k, i)[1]))
Inv == Ends /\ SecondIsLegendre /\ Orthogonal /\ ByParts /\ Exchange
=============================================================================
