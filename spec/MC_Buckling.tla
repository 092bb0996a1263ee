----------------------------- MODULE MC_Buckling ----------------------------
(***************************************************************************)
(* Counting on pencils whose factors are known: K and KG are built from    *)
(* chosen factors by an integer change of basis.  A state raises mu; the   *)
(* count must be the number of positive chosen factors passed so far.      *)
(***************************************************************************)
EXTENDS Buckling
CONSTANT Dim
Factors == {-3, 0, 2, 3, 4, 9}
VARIABLES fac, basis, mu
vars == <<fac, basis, mu>>
\* Factor f stands for f/2; 0 means that the load does not act on that mode
Init == /\ fac \in {f \in [1..Dim -> Factors] : \A i \in 1..(Dim - 1) : f[i] <= f[i + 1]}
        /\ basis \in 1..3 /\ mu = 0
Next == mu < 14 /\ mu' = mu + 1 /\ UNCHANGED <<fac, basis>>
S == MatOf(Dim, Dim, LAMBDA i, j : IF i = j THEN FOne ELSE FRat(((i * basis + 2 * j) % 5) - 2, 3 * Dim))
DiagM(F(_)) == MatOf(Dim, Dim, LAMBDA i, j : IF i = j THEN F(i) ELSE FZero)
K  == MatMul(Transpose(S), S)
KG == MatMul(Transpose(S), MatMul(DiagM(LAMBDA i : IF fac[i] = 0 THEN FZero ELSE FNeg(FRat(2, fac[i]))), S))
\* mu in steps of 1/2, shifted off the factors
Mu == FRat(4 * mu + 1, 8)
Passed == Cardinality({i \in 1..Dim : fac[i] > 0 /\ fac[i] <= mu})
Counted == Below(K, KG, Mu) = Passed
Certified == \A j \in 1..Dim : LET pos == SelectSeq(fac, LAMBDA f : f > 0) IN
    j <= Len(pos) => /\ IsFactor(K, KG, j, FRat(pos[j], 2), FTenTo(6))
                     /\ ~IsFactor(K, KG, j, FRat(pos[j] * 11, 20), FTenTo(6))
                     /\ (j < Len(pos) /\ pos[j + 1] > pos[j] => ~IsFactor(K, KG, j, FRat(pos[j + 1], 2), FTenTo(6)))
CertifiedOnce == mu # 1 \/ Certified
=============================================================================
