----------------------------- MODULE Gen_Buckling ---------------------------
EXTENDS DrawPlate
CONSTANTS MaxSize, MaxPlies
VARIABLE n
Size(d) == IF MaxSize >= 9 THEN Pick({MaxSize - 3, MaxSize, MaxSize} \cup (MaxSize - 3)..MaxSize) ELSE Pick({1, 2, 3, MaxSize - 1} \cup 3..MaxSize)
Init == n = 0
Next == /\ n' = n + 1
        /\ \E m \in {Size(1)} : \E k \in {Size(2)} :
             Emit("plate", [p |-> Plate(HeldConfig(0), m, IF m * k < 4 THEN 4 ELSE k, MaxPlies),
                            mag |-> IF Chance(3) THEN Pick(-6..7) ELSE 0,
                            k |-> IF MaxSize >= 9 THEN Pick({0, 1, 2, 3, 6}) ELSE Pick({0, 0, 1, 2, 3, 5, 8, 99}),
                            kind |-> Pick({"compression", "compression", "any", "shear", "mixed"})])
=============================================================================
