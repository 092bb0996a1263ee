---------------------------- MODULE Gen_Material ---------------------------
(* Materials to build, and the angles to which their stiffness is turned. *)
EXTENDS Draw
VARIABLE n
Init == n = 0
Next == /\ n' = n + 1
        /\ Emit("mat", [m |-> AnyMat(0), unit |-> Pick({-9, -3, 0, 0, 6}), t |-> Thickness(0),
                        angles |-> <<Angle(0), Angle(0), Angle(0)>>])
=============================================================================
