----------------------------- MODULE Gen_Equality ---------------------------
(* Families: a random base object and everything one change away from it.   *)
EXTENDS Equality, Draw
VARIABLE n
Mo(d) == [kind |-> "ortho", name |-> Pick({"", "lam"}),
          num |-> <<Pick(1000..200000), Pick(1000..20000), Pick(0..480), Pick(500..9000), Pick(50..500)>>
                  \o (IF Chance(3) THEN <<0, 0, 0, 0, 0>> ELSE [i \in 1..5 |-> Pick(1..2000)])]
Mi(d) == [kind |-> "iso", name |-> Pick({"", "lam"}),
          num |-> <<Pick(1000..200000), Pick(0..480), Pick(500..90000), Pick(50..500), Pick(0..2000), Pick(0..2000), Pick(0..2000)>>]
Mat(d) == IF Chance(3) THEN Mi(0) ELSE Mo(0)
Ang(d) == Pick({0, 0, 4500, 9000, -4500, 3000, 1234})
Lam(k, M) == LET one == M = 1 /\ Chance(2) IN
             [kind |-> "stack", ang |-> [i \in 1..k |-> Ang(i)], of |-> [i \in 1..k |-> Pick(1..M)],
              mats |-> [i \in 1..M |-> Mat(i)], one |-> one]
Xi(d) == [i \in 1..4 |-> Pick(-500..500)]
Lp(d) == [kind |-> "lp", xa |-> IF Chance(3) THEN <<>> ELSE Xi(0), xd |-> Xi(0), T |-> Pick(100..5000), mat |-> Mo(0)]
Obj(d) == CASE Chance(4) -> Mat(0) [] Chance(3) -> Lp(0) [] OTHER -> Lam(Pick(1..5), Pick(1..3))
Init == n = 0
\* (TLCEval keeps the value of an expression without variables for good: n makes every draw a new one)
Next == /\ n' = n + 1
        /\ \E o \in {TLCEval([of |-> Obj(0), n |-> n]).of} : Emit("family", Variants(o, Pick({1, 2, 7, Trifle})))
=============================================================================
