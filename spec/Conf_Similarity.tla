--------------------------- MODULE Conf_Similarity --------------------------
(* One event is one step of a walk, with the factors before and after it    *)
(* (and, at the end of a walk without refinement, the whole walk at once).  *)
EXTENDS TraceBase, SimilarityLaw
Tol == FTenTo(6)
Pos(x) == IsFx(x) /\ x[1] > 0
Kept_(v, reach) == {j \in 1..Len(v) : \A i \in 1..j : Pos(v[i]) /\ FLe(v[i], FMul(FInt(reach), v[1]))}
Near(x, y, first) == Pos(x) /\ FLe(FAbs(FSub(x, y)), FMul(FMul(Tol, FMax(FOne, FDiv(y, first))), y))
Judge(e) ==
    \* no factor to speak of (an analysis that fails has none either)
    LET b == e.before  a == e.after
        r == TLCEval(FoldLeft(LAMBDA acc, s : FMul(acc, Ratio(s)), FOne, e.steps))
        grows == \E i \in 1..Len(e.steps) : Refines(e.steps[i])
    IN IF grows
       THEN Clause("refinement_never_raises_a_factor", \A j \in Kept_(b, 100) : j <= Len(a) /\ Pos(a[j]) /\
                   FLe(a[j], FMul(FMul(b[j], r), FAdd(FOne, FMul(Tol, FDiv(b[j], b[1]))))))
       ELSE Clause("factors_follow_the_law", \A j \in Kept_(b, 100) : j <= Len(a) /\ \A w \in {FMul(b[j], r)} : Near(a[j], w, FMul(b[1], r)))
            \cup Clause("no_new_factor", \A j \in Kept_(a, 90) : j <= Len(b) /\ Pos(b[j]))
Init == TraceInit
Next == Consume(Judge)
=============================================================================
