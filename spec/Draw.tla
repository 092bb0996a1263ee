-------------------------------- MODULE Draw --------------------------------
(***************************************************************************)
(* Random choices for behaviours generated by TLC -simulate.  Numbers are  *)
(* drawn as 32-bit integers in fine units (MPa, 1/1000, micrometres,       *)
(* hundredths of a degree, ...); the driver turns them into the doubles    *)
(* given to the real code and records those doubles exactly.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

Pick(S) == RandomElement(S)
Chance(n) == RandomElement(1..n) = 1          \* one time in n
Emit(kind, rec) == PrintT("GEN " \o ToJson([kind |-> kind, v |-> rec]))

Angle(d) == CASE Chance(2) -> Pick(IF Chance(5) THEN {-360, -180, -135, -120, -90, 105, 120, 135, 150, 180, 225, 270, 360}
                                   ELSE {-75, -60, -45, -30, -15, 0, 15, 30, 45, 60, 75, 90}) * 100
           [] OTHER -> IF Chance(8) THEN Pick(-40000..40000) ELSE Pick(-9000..9000)
Fine(d) == IF Chance(8) THEN Pick(-60000..60000) ELSE 0      \* and some 1e-7 degrees more
Name(d) == Pick({"", "ud"})                                 \* different materials may bear one name
Modulus(d) == IF Chance(4) THEN Pick(500..5000) ELSE Pick(5000..400000)        \* MPa
Thickness(d) == IF Chance(2) THEN Pick(80..400) ELSE Pick(20..6000)            \* um
\* E2 v12^2 <= 0.9 E1: well inside positive definiteness
Least(a, b) == IF a <= b THEN a ELSE b
OrthoMat(d) == LET e1 == Modulus(0)
                e2 == IF Chance(3) THEN Pick((e1 \div 40 + 1)..Least(40 * e1, 400000))
                                   ELSE Pick((e1 \div 40 + 1)..e1)
                vm == IF e2 > 3 * e1 THEN 150 ELSE 500
            IN [kind |-> "o", e1 |-> e1, e2 |-> e2,
                v12 |-> IF Chance(5) THEN Pick(-vm..0) ELSE Pick(0..vm),
                g12 |-> IF Chance(3) THEN Modulus(0) ELSE Pick((e1 \div 60 + 1)..(e1 \div 2 + 2))]
IsoMat(d) == LET e == Modulus(0) IN
          [kind |-> "i", e1 |-> e, e2 |-> e, v12 |-> Pick(-200..490), g12 |-> Pick((e \div 4)..(e \div 2 + 1))]
\* consistent systems of units in which a problem is written down
Unit(d) == IF Chance(2) THEN "mm" ELSE Pick({"m", "in", "GPa", "um", "TPa"})
AnyMat(d) == IF Chance(6) THEN IsoMat(0) ELSE OrthoMat(0)
Some(S) == IF Chance(15) THEN 0 ELSE Pick(S)                \* an allowable not given is zero
Allow(d) == [t1 |-> Some(50..3000), c1 |-> Some(50..3000), t2 |-> Some(5..300),
          c2 |-> Some(20..500), s |-> Some(10..300)]                         \* MPa
=============================================================================
