---------------------------- MODULE MC_Signature ----------------------------
(* Every rewriting of every call of the callables with few parameters; of   *)
(* the others, the rewritings that keep the named arguments in order.       *)
EXTENDS Signature
CONSTANT Few                                   \* callables of up to this many parameters: any order
Values(g, i) == {Sig[g][i].dflt, "v"} \ {""}
Bindings(g) == IF Count(g) <= Few THEN {b \in [1..Count(g) -> {"v", ""}  \cup {Sig[g][i].dflt : i \in 1..Count(g)}] : \A i \in 1..Count(g) : b[i] \in Values(g, i)}
               ELSE {[i \in 1..Count(g) |-> "v"], [i \in 1..Count(g) |-> IF Optional(g, i) THEN Sig[g][i].dflt ELSE "v"],
                     [i \in 1..Count(g) |-> IF Optional(g, i) /\ i % 2 = 0 THEN Sig[g][i].dflt ELSE "v"]}
InOrder(g, kw) == \A i, j \in 1..Len(kw) : i < j => At(g, kw[i][1]) < At(g, kw[j][1])
Init == \E g \in Callables : \E b \in Bindings(g) : Start(g, b)
Next == Rewrite /\ (Count(fn) <= Few \/ InOrder(fn, call'.kw))
\* a call in another order of the positions means something else (unless the values agree)
OrderMatters == \A i \in 2..Len(call.pos) : call.pos[i] # call.pos[i - 1] =>
    Meaning(fn, [call EXCEPT !.pos = [@ EXCEPT ![i] = call.pos[i - 1], ![i - 1] = call.pos[i]]]) # given
=============================================================================
