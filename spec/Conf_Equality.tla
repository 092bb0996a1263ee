---------------------------- MODULE Conf_Equality ---------------------------
(***************************************************************************)
(* Event: a family of objects [objs], eq[i][j] and ne[i][j] as returned by *)
(* the real operators ("T", "F" or an error name), stiff[i] the stiffness  *)
(* of each, and alien: results of comparing a laminate with other things.  *)
(***************************************************************************)
EXTENDS TraceBase, Equality
B(b) == IF b THEN "T" ELSE "F"
Judge(e) ==
    LET n == Len(e.objs)
        S == TLCEval([i \in 1..n |-> [j \in 1..n |-> Same(e.objs[i], e.objs[j])]])
    IN IF e.err # "" THEN {"comparable"} ELSE
       Clause("equal_exactly_when_same_content", \A i, j \in 1..n : e.eq[i][j] = B(S[i][j]))
       \cup Clause("inequality_is_negation", \A i, j \in 1..n : e.ne[i][j] = B(e.eq[i][j] = "F") /\ e.eq[i][j] \in {"T", "F"})
       \cup Clause("reflexive", \A i \in 1..n : e.eq[i][i] = "T")
       \cup Clause("symmetric", \A i, j \in 1..n : e.eq[i][j] = e.eq[j][i])
       \cup Clause("transitive", \A i, j \in 1..n : e.eq[i][j] = "T" => \A k \in 1..n : e.eq[j][k] = e.eq[i][k])
       \cup Clause("equal_laminates_equal_stiffness", \A i, j \in 1..n : e.eq[i][j] = "T" => e.stiff[i] = e.stiff[j])
       \cup Clause("nothing_else_equals_a_laminate", \A i \in 1..Len(e.alien) : e.alien[i] = <<"F", "T", "F">>)
       \cup Clause("a_material_is_no_laminate", e.mat # "T")
Init == TraceInit
Next == Consume(Judge)
=============================================================================
