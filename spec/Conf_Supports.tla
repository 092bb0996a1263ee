---------------------------- MODULE Conf_Supports ---------------------------
(***************************************************************************)
(* One event is one plate: the function pairs it reports after the bending *)
(* and after the coupled analysis, and the diagonal of its coupled and     *)
(* bending stiffness, which shows the functions really used.               *)
(***************************************************************************)
EXTENDS TraceBase, Plate

Kinds == <<"u", "v", "w">>
Diag(e, f) ==
    Bind(<<AlongX(e.c, e.m, f), AlongY(e.c, e.n, f), StiffForm(f, f, FromABD(e.A, e.B, e.D), e.h, e.a, e.b)>>, LAMBDA t :
      Bind(<<IntTab(t[1], t[1]), IntTab(t[2], t[2])>>, LAMBDA T :
        TLCEval([r \in 1..(Len(t[1]) * Len(t[2])) |->
          LET i == (r - 1) \div Len(t[2]) + 1  j == ((r - 1) % Len(t[2])) + 1 IN Entry(t[3], T[1], T[2], i, j, i, j)])))
DiagNear(obs, d0) == \A d \in {d0} : \A r \in 1..Len(d) : IsFx(obs[r]) /\ FLe(FAbs(FSub(obs[r], d[r][1])), d[r][2])
Want(e, f) == Pairs(AlongX(e.c, e.m, f), AlongY(e.c, e.n, f))
Judge(e) ==
    IF e.err # "" THEN {"accepted"}
    ELSE LET k == e.m * e.n IN
         UNION {Clause("functions_" \o Kinds[i], e.idx[i] = Want(e, Kinds[i])) : i \in 1..3}
         \cup Clause("same_functions_in_both_analyses", e.idx = e.idx2)
         \cup (IF Len(e.diag) # 3 * k \/ Len(e.diagw) # k THEN {"size"}
               ELSE UNION {Clause("stiffness_" \o Kinds[i], DiagNear(SubSeq(e.diag, (i - 1) * k + 1, i * k), Diag(e, Kinds[i]))) : i \in 1..3}
                    \cup Clause("stiffness_w_bending", DiagNear(e.diagw, Diag(e, "w"))))
Init == LoadPlate /\ TraceInit
Next == Consume(Judge)
=============================================================================
