------------------------------ MODULE TraceBase -----------------------------
(***************************************************************************)
(* Replaying recorded observations of the real code against the            *)
(* specification.  A trace is a file with one JSON event per line.  A      *)
(* conformance module supplies, for every event, the set of names of the   *)
(* clauses it violates; the verdict is total: the trace is always consumed *)
(* to its end, and every rejected event is printed with its clauses.       *)
(***************************************************************************)
EXTENDS LinAlg, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, nbad

TraceInit == l = 1 /\ nbad = 0
Consume(F(_)) ==
    /\ l <= Len(Trace)
    /\ LET f == TLCEval(F(Trace[l])) IN
       /\ IF f = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([line |-> l, clauses |-> f]))
       /\ nbad' = nbad + (IF f = {} THEN 0 ELSE 1)
    /\ l' = l + 1

TraceAccepted ==
    /\ PrintT("DONE " \o ToString(TLCGet("stats").diameter - 1))
    /\ TLCGet("stats").diameter - 1 = Len(Trace)

Clause(name, ok) == IF ok THEN {} ELSE {name}
Has(e, f) == f \in DOMAIN e

TolTight == FTenTo(9)          \* relative to the natural scale of the quantity
TolMed   == FTenTo(7)
TolLoose == FTenTo(5)
=============================================================================
