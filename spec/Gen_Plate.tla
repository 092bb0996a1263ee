------------------------------ MODULE Gen_Plate -----------------------------
EXTENDS DrawPlate
CONSTANTS MaxSize, MaxPlies
VARIABLE n
Size(d) == IF Chance(2) THEN Pick(2..MaxSize) ELSE Pick(1..MaxSize)
Init == n = 0
Next == /\ n' = n + 1
        /\ Emit("plate", Plate(AnyConfig(0), Size(1), Size(2), MaxPlies))
=============================================================================
