----------------------------- MODULE MC_Equality ----------------------------
(***************************************************************************)
(* Pairs of objects reached from a few base objects by chains of single    *)
(* changes.  Sameness of content is an equivalence that ignores names and  *)
(* containers, and sees every other single change.                         *)
(***************************************************************************)
EXTENDS Equality, TLC
Mo == [kind |-> "ortho", name |-> "a", num |-> <<9, 5, 3, 4, 2, 7, 6, 1, 8, 3>>]
Mi == [kind |-> "iso", name |-> "b", num |-> <<9, 3, 4, 2, 7, 6, 1>>]
Bases == {Mo, Mi,
          [kind |-> "stack", ang |-> <<0, 45, 0>>, of |-> <<1, 2, 1>>, mats |-> <<Mo, Mi>>, one |-> FALSE],
          [kind |-> "stack", ang |-> <<0, 90>>, of |-> <<1, 1>>, mats |-> <<Mo>>, one |-> TRUE],
          [kind |-> "lp", xa |-> <<1, 2, 3, 4>>, xd |-> <<5, 6, 7, 8>>, T |-> 2, mat |-> Mo]}
CONSTANT Steps
VARIABLES o, p, k, changed
Init == o \in Bases /\ p = o /\ k = 0 /\ changed = FALSE
Next == /\ k < Steps /\ k' = k + 1 /\ o' = o
        /\ \E i \in DOMAIN Variants(p, 1) : p' = Variants(p, 1)[i]
        /\ changed' = (changed \/ ~Same(p, p'))
Laws == /\ Same(o, o) /\ Same(p, p)
        /\ Same(o, p) = Same(p, o)
        /\ \A i \in DOMAIN Variants(p, 1) : LET q == Variants(p, 1)[i] IN (Same(o, p) /\ Same(p, q)) => Same(o, q)
        /\ ~changed => Same(o, p)
OneChangeSeen == k = 1 /\ Same(o, p) =>
        \/ p = o
        \/ o.kind \in {"ortho", "iso"} /\ p = [o EXCEPT !.name = p.name]
        \/ o.kind = "stack" /\ o.ang = p.ang /\ \A i \in 1..Len(o.of) : o.mats[o.of[i]].num = p.mats[p.of[i]].num
        \/ o.kind = "lp" /\ [o EXCEPT !.mat.name = p.mat.name] = p
=============================================================================
