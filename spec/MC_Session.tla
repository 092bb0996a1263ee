----------------------------- MODULE MC_Session -----------------------------
(***************************************************************************)
(* An implementation in the style of the library: objects copy or borrow   *)
(* their arguments and fill caches lazily when a quantity is read, one     *)
(* quantity filling another's cache on the way.  With copies, every        *)
(* history of at most Steps steps reads the value of the definition; with  *)
(* borrowed containers (Copies = FALSE) TLC finds a history that does not. *)
(***************************************************************************)
EXTENDS Session, TLC
CONSTANTS Steps, Copies
VARIABLES box, objs, read, n
vars == <<box, objs, read, n>>
Vals == {<<1>>, <<2>>, <<1, 2>>}
Qs == {"A", "ABD"}
\* the value a definition has: "ABD" is made of "A"
Pure(def, q) == IF q = "A" THEN <<"A", def>> ELSE <<"ABD", <<"A", def>>>>
Init == /\ box = [kind |-> "angles", form |-> "list", val |-> <<1>>]
        /\ objs = <<>> /\ read = <<>> /\ n = 0
Make == /\ Len(objs) < 2
        /\ objs' = Append(objs, [def |-> box.val, keeps |-> box.val, cache |-> [q \in {} |-> 0]])
        /\ UNCHANGED <<box, read>>
Mutate == /\ \E mu \in {<<"set", 1, 2>>, <<"set", 1, 1>>, <<"append", 2>>} :
               (Len(box.val) < 2 \/ mu[1] # "append") /\ box' = Apply(box, mu)
          /\ UNCHANGED <<objs, read>>
Arg(o) == IF Copies THEN o.keeps ELSE box.val
Read == \E i \in 1..Len(objs) : \E q \in Qs :
    LET o == objs[i]
        a == IF "A" \in DOMAIN o.cache THEN o.cache["A"] ELSE <<"A", Arg(o)>>
        v == IF q \in DOMAIN o.cache THEN o.cache[q] ELSE IF q = "A" THEN a ELSE <<"ABD", a>>
        c == ("A" :> a) @@ (q :> v) @@ o.cache
    IN /\ objs' = [objs EXCEPT ![i].cache = c]
       /\ read' = <<o.def, q, v>>
       /\ UNCHANGED box
Next == n < Steps /\ n' = n + 1 /\ (Make \/ Mutate \/ Read)
HistoryFree == read # <<>> => read[3] = Pure(read[1], read[2])
=============================================================================
