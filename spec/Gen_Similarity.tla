--------------------------- MODULE Gen_Similarity ---------------------------
(* Random walks: a plate and Steps changes of it.                           *)
EXTENDS Similarity, DrawPlate
CONSTANTS MaxSize, MaxPlies, Steps
VARIABLE n
S == {500, 700, 900, 1100, 1300, 1700, 2300}
Kinds == {"moduli", "loads", "thick", "dims", "swap", "mirror_x", "mirror_y", "half_turn", "back_turn", "upside_down", "grow_m", "grow_n"}
One(P) == LET bad == {k \in Kinds : ~Allowed(P, <<k>>)} \cup (IF P.m >= MaxSize THEN {"grow_m"} ELSE {}) \cup (IF P.n >= MaxSize THEN {"grow_n"} ELSE {})
              k == Pick(Kinds \ bad)
          IN CHOOSE s \in {IF k \in {"moduli", "loads", "thick", "dims"} THEN <<k, IF k = "loads" /\ Chance(3) THEN Pick({1, 1000000}) ELSE Pick(S)>> ELSE <<k>>} : TRUE
RECURSIVE Walk(_, _)
Walk(P, k) == IF k = 0 THEN <<>>
              ELSE CHOOSE w \in {LET Q == Transform(P, s) IN <<[s |-> s, p |-> Q]>> \o Walk(Q, k - 1) : s \in {One(P)}} : TRUE
Size(d) == Pick(2..(MaxSize - 1))
Init == n = 0
Next == /\ n' = n + 1
        /\ \E P \in {Plate(HeldConfig(0), Size(1), Size(2), MaxPlies)} :
           \E P0 \in {Scaled([P EXCEPT !.N = <<-Pick(1..2000), IF Chance(3) THEN 0 ELSE -Pick(1..2000), P.N[3]>>])} :
             Emit("walk", [p |-> P0, k |-> Pick({2, 3, 5, 5}), steps |-> Walk(P0, Steps)])
=============================================================================
