----------------------------- MODULE Conf_Plate -----------------------------
(* One event is one plate with its matrices.                                *)
EXTENDS TraceBase, Plate
CONSTANT What              \* "bending" (C09) or "coupled" (C10)

InRange(e) == LET all == UNION {{AlongX(e.c, e.m, f)[i] : i \in 1..e.m} \cup {AlongY(e.c, e.n, f)[i] : i \in 1..e.n} :
                                f \in (IF What = "bending" THEN {"w"} ELSE Fields)}
              IN \A i \in all : i <= MaxIndex
Square(M, k) == Len(M) = k /\ \A i \in 1..k : Len(M[i]) = k
\* block of rows r0+1..r0+k and columns c0+1..c0+k
Sub(M, r0, c0, k) == TLCEval([i \in 1..k |-> SubSeq(M[r0 + i], c0 + 1, c0 + k)])
\* no negative eigenvalue beyond rounding
Psd(M0) == \A M \in {M0} : NegCount(MatOf(Len(M), Len(M), LAMBDA i, j :
             IF i = j THEN FAdd(M[i][i], FMul(FAbs(M[i][i]), TolTight)) ELSE M[i][j])) = 0
Finite(M) == \A i \in 1..Len(M) : \A j \in 1..Len(M[i]) : IsFx(M[i][j])
Bending(e, K, KG) ==
    LET C == FromD(e.D) IN
    Clause("bending_matrix_is_energy_hessian", BlockNear(K, StiffBlock(e.c, e.m, e.n, "w", "w", C, e.h, e.a, e.b)))
    \cup Clause("geometric_matrix_is_load_work_hessian", BlockNear(KG, LoadBlock(e.c, e.m, e.n, e.N, e.a, e.b)))
Coupled(e) ==
    LET k == e.m * e.n
        C == FromABD(e.A, e.B, e.D)
        fs == <<"u", "v", "w">>
        ok == Square(e.K, 3 * k) /\ Square(e.KG, 3 * k)
    IN Clause("shape", ok) \cup
       (IF ~ok THEN {} ELSE
        UNION {Clause("block_" \o fs[i] \o fs[j],
                      BlockNear(Sub(e.K, (i - 1) * k, (j - 1) * k, k), StiffBlock(e.c, e.m, e.n, fs[i], fs[j], C, e.h, e.a, e.b)))
               : i \in 1..3, j \in 1..3}
        \cup Clause("load_work_in_w_only", \A i \in 1..(3 * k) : \A j \in 1..(3 * k) :
                       (i <= 2 * k \/ j <= 2 * k) => e.KG[i][j] = FZero)
        \cup Clause("geometric_block", BlockNear(Sub(e.KG, 2 * k, 2 * k, k), LoadBlock(e.c, e.m, e.n, e.N, e.a, e.b)))
        \cup Clause("same_bending_block_alone", MatNear(Sub(e.K, 2 * k, 2 * k, k), e.Kb, FTenTo(12), MatMaxAbs(e.Kb))
                                                /\ MatNear(Sub(e.KG, 2 * k, 2 * k, k), e.KGb, FTenTo(12), MatMaxAbs(e.KGb)))
        \cup Clause("positive_semidefinite", 3 * k > 48 \/ (Finite(e.K) /\ Psd(e.K))))
Judge(e) == IF ~InRange(e) THEN Clause("beyond_range_refused", e.err # "")
            ELSE IF e.err # "" THEN {"computed"}
            ELSE IF What = "bending"
                 THEN Bending(e, e.K, e.KG) \cup Clause("positive_semidefinite", e.m * e.n > 48 \/ (Finite(e.K) /\ Psd(e.K)))
                 ELSE Coupled(e)
Init == LoadPlate /\ TraceInit
Next == Consume(Judge)
=============================================================================
