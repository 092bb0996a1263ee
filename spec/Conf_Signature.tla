--------------------------- MODULE Conf_Signature ---------------------------
(* Judges a call (out), the same call once more (again) and the call that   *)
(* names every parameter with the value it means (full).                    *)
EXTENDS TraceBase, Signature
RECURSIVE Top(_, _, _)
Top(s, i, m) == IF i > Len(s) THEN m ELSE Top(s, i + 1, IF IsFx(s[i]) THEN FMax(m, FAbs(s[i])) ELSE m)
Alike(x, y, tol) == Len(x) = Len(y) /\
    \A top \in {FMul(tol, FAdd(Top(x, 1, FZero), FTenTo(30)))} :
       \A i \in 1..Len(x) : IF IsFx(x[i]) /\ IsFx(y[i]) THEN FLe(FAbs(FSub(x[i], y[i])), top) ELSE x[i] = y[i]
Same(p, q) == /\ p.err = q.err /\ p.text = q.text /\ Len(p.nums) = Len(q.nums)
              /\ \A i \in 1..Len(p.nums) : Alike(p.nums[i], q.nums[i], TolLoose)
Judge(e) ==
    Clause("documented_meaning", Legal(e.f, e.call) /\ Meaning(e.f, e.call) = e.given /\ e.named = Full(e.f, e.given).kw)
    \cup Clause("answered", e.out.err = "" /\ e.full.err = "")
    \cup Clause("same_as_written_out", Same(e.out, e.full))
    \cup Clause("repeatable", Same(e.out, e.again))
Init == TraceInit /\ fn = "" /\ call = <<>> /\ given = <<>>
Next == Consume(Judge) /\ UNCHANGED <<fn, call, given>>
=============================================================================
