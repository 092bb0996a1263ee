----------------------------- MODULE Conf_Pcomp -----------------------------
(* Event: the arguments of one call and the card (or the refusal).           *)
EXTENDS TraceBase, Pcomp

Refused(e) == \/ (~e.mid.all /\ Len(e.mid.v) # e.n) \/ (~e.t.all /\ Len(e.t.v) # e.n)
              \/ e.out.kind = "bad"
              \/ (e.out.kind = "list" /\ (Len(e.out.v) # e.n \/ \E i \in 1..Len(e.out.v) : e.out.v[i] \notin {"YES", "NO"}))

Card(e) ==
    LET L == TLCEval(ReadLines(e.text))  d == TLCEval(AllData(L))  n == e.n
        P(i, k) == LET j == 8 + 4 * (i - 1) + k IN IF j <= Len(d) THEN d[j] ELSE ""
    IN Clause("name", L # <<>> /\ L[1][1] = "PCOMP")
       \cup Clause("lines_linked_in_tenth_field", Linked(L))
       \cup Clause("property_id", IsNum(d[1], e.pid))
       \cup Clause("offset", IF e.z0 = <<>> THEN d[2] = "" ELSE IsNum(d[2], e.z0))
       \cup Clause("nothing_else_in_header", \A k \in 3..8 : d[k] = "")
       \cup Clause("material_ids", \A i \in 1..n : IsNum(P(i, 1), ForPly(e.mid, i)))
       \cup Clause("thicknesses", \A i \in 1..n : IsNum(P(i, 2), ForPly(e.t, i)))
       \cup Clause("angles", \A i \in 1..n : IsNum(P(i, 3), e.ang[i]))
       \cup Clause("output_requests", \A i \in 1..n : P(i, 4) = OutRequest(e.out, i, n))
       \cup Clause("no_more_plies", \A k \in (9 + 4 * n)..Len(d) : d[k] = "")

Judge(e) == IF Refused(e) THEN Clause("refused_with_ValueError", e.err # "" /\ "ValueError" \in {e.errs[i] : i \in 1..Len(e.errs)})
            ELSE IF e.err # "" THEN {"accepted"} ELSE Card(e)
Init == TraceInit
Next == Consume(Judge)
=============================================================================
