---------------------------- MODULE Conf_StackText -------------------------
(* Event: the abstract text, its written form, and the list returned for it. *)
EXTENDS TraceBase, StackText
Judge(e) ==
    IF Broken(e.x) THEN Clause("no_stacking_refused", e.err # "" /\ "ValueError" \in {e.errs[i] : i \in 1..Len(e.errs)})
                        \cup Clause("spec_reads_its_own_text", ~IsStacking(e.text))
    ELSE LET d == Denote(e.x) IN
    Clause("spec_reads_its_own_text", IsStacking(e.text) /\ ScanText(e.text) = d)
    \cup (IF e.err # "" THEN {"accepted"} ELSE
          Clause("number_of_plies", Len(e.got) = Len(d))
          \cup (IF Len(e.got) # Len(d) THEN {} ELSE
                Clause("plies_in_order", \A i \in 1..Len(d) : FNear(e.got[i], FRat(d[i], 100), FTenTo(10), FInt(100)))))
Init == TraceInit
Next == Consume(Judge)
=============================================================================
