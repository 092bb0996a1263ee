----------------------------- MODULE Conf_Session ---------------------------
(***************************************************************************)
(* One event is one command of a session: the user's containers after it,  *)
(* as the specification predicts them and as found, and for a read or call *)
(* the value obtained and the value of the same definition in a pristine   *)
(* process.  A value is a text (shape, labels) and numeric columns; equal  *)
(* identifiers mean identical values, otherwise the numbers are compared.  *)
(***************************************************************************)
EXTENDS TraceBase
Near(x, y, tol) == IF ~IsFx(x) \/ ~IsFx(y) THEN x = y ELSE TRUE
ColNear(a, b, tol) ==
    /\ Len(a) = Len(b)
    /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
    /\ \A bound \in {FMul(tol, FMaxAbs([i \in 1..Len(b) |-> IF IsFx(b[i]) THEN b[i] ELSE FZero]))} :
         \A i \in 1..Len(a) : IsFx(a[i]) => FLe(FAbs(FSub(a[i], b[i])), bound)
SameValue(e) ==
    \/ e.obs.id = e.ref.id
    \/ /\ Has(e.obs, "cols") /\ Has(e.ref, "cols")
       /\ e.obs.text = e.ref.text
       /\ Len(e.obs.cols) = Len(e.ref.cols)
       /\ \A k \in 1..Len(e.ref.cols) : ColNear(e.obs.cols[k], e.ref.cols[k], IF e.loose THEN FTenTo(5) ELSE FTenTo(10))
Judge(e) == Clause("containers_belong_to_the_user", e.found = e.boxes)
            \cup (IF Has(e, "obs") THEN Clause("value_of_the_definition", SameValue(e)) ELSE {})
            \cup (IF Has(e, "obs") THEN Clause("answered", ~e.failed) ELSE {})
            \cup Clause("built", e.err = "")
Init == TraceInit
Next == Consume(Judge)
=============================================================================
