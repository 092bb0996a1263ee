--------------------------- MODULE Conf_Screening --------------------------
EXTENDS TraceBase, Screening

Errs(e) == {e.errs[i] : i \in 1..Len(e.errs)}
\* e1 = 0 leaves the minor Poisson ratio undefined: nothing is required
Degenerate(e) == e.cls = "ortho" /\ e.args[1].f \in NumForms /\ e.args[1].x = FZero

CallJudge(e) ==
    LET S == Sig[e.cls]
        ok == \A i \in 1..Len(S) : e.args[i].given => Acceptable(S[i].kind, e.args[i].f, e.args[i].x)
    IN IF Degenerate(e) THEN {}
       ELSE IF ~ok THEN Clause("refused_with_ValueError", "ValueError" \in Errs(e))
       ELSE IF e.err # "" THEN {"valid_accepted"}
       ELSE UNION {Clause("reports_" \o S[i].n, e.got[i] = (IF e.args[i].given THEN e.args[i].x ELSE Default(S[i].d)))
                   : i \in 1..Len(S)}
            \cup Clause("reports_name", e.named)
LamJudge(e) ==
    IF e.plies = -1 \/ e.plies = e.angles THEN Clause("valid_accepted", e.err = "")
    ELSE Clause("length_mismatch_refused", "ValueError" \in Errs(e))
LpJudge(e) ==
    IF e.xiD /\ e.T THEN Clause("valid_accepted", e.err = "")
    ELSE Clause("incomplete_parameters_refused", Errs(e) \cap {"ValueError", "KeyError", "TypeError"} # {})
PropJudge(e) ==
    IF e.what \in {"laminate", "lp"} THEN Clause("valid_accepted", e.err = "")
    ELSE Clause("not_a_laminate_refused", "ValueError" \in Errs(e))
\* a material is called what the user said; without a name it has one of its own
NamesJudge(e) ==
    IF e.err # "" THEN {"valid_accepted"} ELSE
    LET own == {i \in 1..Len(e.made) : e.made[i].name \in {"(none)", "(None)"}} IN
    Clause("given_name_reported", \A i \in 1..Len(e.made) : i \notin own => \A k \in 1..Len(e.got[i]) : e.got[i][k] = e.made[i].name)
    \cup Clause("name_stable", \A i \in own : \A k \in 1..Len(e.got[i]) : e.got[i][k] = e.got[i][1] /\ e.got[i][k] # "")
    \cup Clause("own_name", \A i, j \in own : i < j /\ e.made[i].cls = e.made[j].cls /\ e.got[i] # <<>> /\ e.got[j] # <<>>
                               => e.got[i][1] # e.got[j][1])
Judge(e) == CASE e.kind = "call" -> CallJudge(e) [] e.kind = "lam" -> LamJudge(e)
              [] e.kind = "names" -> NamesJudge(e) [] e.kind = "lp" -> LpJudge(e) [] e.kind = "prop" -> PropJudge(e)
Init == TraceInit
Next == Consume(Judge)
=============================================================================
