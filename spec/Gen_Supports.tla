----------------------------- MODULE Gen_Supports ---------------------------
(* All pairs of restraint sets of two opposite edges, paired crosswise with  *)
(* pairs for the other two, then random mixtures of spellings.               *)
EXTENDS DrawPlate, SequencesExt
CONSTANTS Pairs, Mixed
VARIABLE n
SetOf(k) == SelectSeq(<<"TX", "TY", "TZ", "RX", "RY", "RZ">>,
              LAMBDA mo : LET b == [TX |-> 1, TY |-> 2, TZ |-> 4, RX |-> 8, RY |-> 16, RZ |-> 32][mo] IN (k \div b) % 2 = 1)
At(k) == (k * 1361 + 17) % 4096                       \* a permutation of the 4096 pairs
Sweep(k) == LET y == At((k * 5 + 2048) % 4096) IN
    [c |-> <<"edges", <<"list">> \o SetOf(k \div 64), <<"list">> \o SetOf(k % 64),
                      <<"list">> \o SetOf(y \div 64), <<"list">> \o SetOf(y % 64)>>,
     style |-> "lower", m |-> 1 + ((k \div 3) % 3), n |-> 1 + ((k \div 5) % 2)]
\* sometimes a long series in one direction
Sizes(d) == LET k == Pick(1..32) IN
    CASE k = 1 -> <<Pick(7..26), Pick(1..2)>> [] k = 2 -> <<Pick(1..2), Pick(7..26)>> [] OTHER -> <<Pick(1..6), Pick(1..6)>>
Init == n = 0
Next == /\ n' = n + 1
        /\ IF n < Pairs THEN Emit("sup", Sweep((n * (4096 \div Pairs)) % 4096))
           ELSE IF n < Pairs + Mixed THEN Emit("sup", LET s == Sizes(0) IN [c |-> AnyConfig(0), style |-> Style(0), m |-> s[1], n |-> s[2]])
           ELSE TRUE
=============================================================================
