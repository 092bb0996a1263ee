------------------------------ MODULE Gen_Pcomp -----------------------------
(* A behaviour adds plies to a card request and then emits it; each         *)
(* argument is a scalar or a per-ply list, sometimes of the wrong length or *)
(* with an unknown output request.                                          *)
EXTENDS Draw
CONSTANT MaxPlies
VARIABLES n, goal
Th(d) == IF Chance(3) THEN Pick(1..999) * 1000 ELSE IF Chance(4) THEN Pick(1..99) ELSE Pick(100..9999999)   \* 1e-7
Arg(k, F(_)) == IF Chance(2) THEN [all |-> TRUE, v |-> <<F(0)>>]
                ELSE [all |-> FALSE, v |-> [i \in 1..(IF Chance(12) THEN k + Pick({-1, 1}) ELSE k) |-> F(i)]]
Out(k) == LET r == Pick(1..9) IN
    CASE r <= 2 -> [kind |-> "default"] [] r = 3 -> [kind |-> "FIBER"] [] r = 4 -> [kind |-> "YES"] [] r = 5 -> [kind |-> "NO"]
      [] r = 6 -> [kind |-> "bad", v |-> Pick({"MAYBE", "ALL", "yes", "FIBRE", "", "Y"})]
      [] r = 7 -> [kind |-> "list", v |-> [i \in 1..(k + Pick({-1, 1, 2})) |-> Pick({"YES", "NO"})]]
      [] OTHER -> [kind |-> "list", v |-> [i \in 1..k |-> IF Chance(40) THEN Pick({"FIBER", "Y", "0", "", "no", "YES "}) ELSE Pick({"YES", "NO"})]]
Mid(d) == IF Chance(3) THEN Pick(1..99999999) ELSE Pick(1..30)
\* left out, nothing at all, or a distance in 1/1000
Offset(d) == CASE Chance(2) -> [kind |-> "none"] [] Chance(4) -> [kind |-> Pick({"int", "float"}), v |-> 0]
              [] OTHER -> [kind |-> "float", v |-> Pick(-99999..99999)]
Init == n = 1 /\ goal = 1
Grow == n < goal /\ n' = n + 1 /\ UNCHANGED goal
Done == /\ n >= goal
        /\ Emit("pcomp", [n |-> n, ang |-> [i \in 1..n |-> Angle(i)], mid |-> Arg(n, Mid), t |-> Arg(n, Th),
                          pid |-> IF Chance(3) THEN 0 ELSE Pick(1..99999999), z0 |-> Offset(n),
                          out |-> Out(n), box |-> Pick({"list", "tuple", "array"})])
        /\ n' = 1 /\ goal' = Pick(1..MaxPlies)
Next == Grow \/ Done
=============================================================================
