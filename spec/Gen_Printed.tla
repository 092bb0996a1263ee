----------------------------- MODULE Gen_Printed ----------------------------
(* Objects to be printed.  A number is k / div * 10^ten.                    *)
EXTENDS Draw
VARIABLE n
Wide(lo, hi) == [k |-> Pick(1..2000000000), div |-> Pick({1, 3, 7, 1000, 999983}), ten |-> Pick(lo..hi)]
Share(d) == [k |-> Pick(-499..499), div |-> Pick({1000, 1000, 1001, 2003}), ten |-> 0]
Zero == [k |-> 0, div |-> 1, ten |-> 0]
Allowable(d) == IF Chance(5) THEN Zero ELSE Wide(-9, 6)
Plain(d) == [k |-> Pick(1..400000), div |-> 1, ten |-> 0]
Modulus1(d) == IF Chance(3) THEN Plain(0) ELSE Wide(-9, 9)
Called(d) == Pick({"", "", "lam", "T300/5208", "carbon fibre", "E-glass", "x_1", "plies (top)", "Kevlar"})
Ortho(d) == [kind |-> "ortho", name |-> Called(0), int |-> Chance(4),
             num |-> <<Modulus1(1), Modulus1(2), Share(3), Modulus1(4), Wide(-9, 3)>> \o [i \in 1..5 |-> Allowable(i)]]
Iso(d) == [kind |-> "iso", name |-> Called(0), int |-> Chance(4),
           num |-> <<Modulus1(1), Share(3), Modulus1(4), Wide(-9, 3)>> \o [i \in 1..3 |-> Allowable(i)]]
\* angles: whole, two decimals, or with all their digits
Ang(d, fine) == CASE Chance(3) -> [k |-> Pick({0, 45, 90, -45, 30, -60, 180}), div |-> 1, ten |-> 0]
                  [] fine -> [k |-> Pick(-9000..9000), div |-> Pick({7, 100, 101, 3000}), ten |-> 0]
                  [] OTHER -> [k |-> Pick(-9000..9000), div |-> 100, ten |-> 0]
Stack(d) == \E box \in {Pick({"list", "tuple", "array", "intarray", "typed"})} : \E m \in {Pick(IF Chance(4) THEN 20..60 ELSE 1..12)} :
            Emit("obj", [kind |-> "stack", box |-> box, one |-> Chance(2),
                         ang |-> [i \in 1..m |-> IF box = "intarray" THEN [k |-> Pick(-90..90), div |-> 1, ten |-> 0]
                                                 ELSE Ang(i, box # "array")]])
Xi(box) == [i \in 1..4 |-> [k |-> Pick(-999..999), div |-> IF box = "array" THEN 1000 ELSE Pick({1000, 1001, 3001}), ten |-> 0]]
Lp(d) == \E box \in {Pick({"list", "tuple", "array", "typed"})} :
         Emit("obj", [kind |-> "lp", box |-> box, xiD |-> Xi(box), xiA |-> IF Chance(2) THEN Xi(box) ELSE <<>>,
                      xiB |-> IF Chance(4) THEN [i \in 1..4 |-> Zero] ELSE <<>>, T |-> Wide(-9, 3), order |-> Pick(1..4)])
Init == n = 0
Next == /\ n' = n + 1
        /\ \E c \in {Pick(1..5)} : CASE c = 1 -> Emit("obj", Ortho(n)) [] c = 2 -> Emit("obj", Iso(n))
                                     [] c = 3 -> Lp(n) [] OTHER -> Stack(n)
=============================================================================
