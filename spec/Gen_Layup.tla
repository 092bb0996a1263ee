------------------------------ MODULE Gen_Layup -----------------------------
(***************************************************************************)
(* Laminates built ply by ply (a behaviour is one laminate growing; it is  *)
(* emitted when it is finished) and laminates given by parameters.         *)
(***************************************************************************)
EXTENDS Draw
CONSTANT MaxPlies
VARIABLES lam, mats, goal, done

Containers == {"list", "list", "tuple", "array", "intarray"}
NewGoal(d) == Pick({1, 2, 3, 4, 5, 6, 8, MaxPlies})
Start == /\ mats = [i \in 1..Pick(1..3) |-> [m |-> AnyMat(0), t |-> Thickness(0), a |-> Allow(0), nm |-> Name(0)]]
         /\ lam = <<>> /\ goal = NewGoal(0) /\ done = FALSE
Init == Start
AddPly == /\ Len(lam) < goal
          /\ lam' = Append(lam, [k |-> Pick(1..Len(mats)), th |-> Angle(0), f |-> Fine(0)])
          /\ UNCHANGED <<mats, goal, done>>
Mirror == /\ Len(lam) >= 2 /\ 2 * Len(lam) <= goal /\ Chance(4)
          /\ lam' = lam \o [i \in 1..Len(lam) |-> lam[Len(lam) + 1 - i]]
          /\ UNCHANGED <<mats, goal, done>>
Nearly == /\ Len(lam) >= 2 /\ 2 * Len(lam) <= goal /\ Chance(8)          \* symmetric but for a fraction of a degree
          /\ lam' = lam \o [i \in 1..Len(lam) |-> IF i = Len(lam) THEN [lam[1] EXCEPT !.th = @ + Pick(-30..30)] ELSE lam[Len(lam) + 1 - i]]
          /\ UNCHANGED <<mats, goal, done>>
Finish == /\ Len(lam) >= goal /\ ~done
          /\ Emit("lam", [lam |-> lam, mats |-> mats, container |-> Pick(Containers), single |-> Pick({TRUE, FALSE}), unit |-> Unit(0),
                          loads |-> [i \in 1..6 |-> IF Chance(3) THEN 0 ELSE Pick(-2000..2000)]])
          /\ Emit("lp", [unit |-> Unit(0), m |-> OrthoMat(0), t |-> Thickness(0), T |-> Pick(100..20000), only |-> Chance(4),
                         xa |-> <<Pick(-1000..1000), Pick(-1000..1000), Pick(0..1000), Pick(-1000..1000)>>,
                         xd |-> <<Pick(-1000..1000), Pick(-1000..1000), Pick(0..1000), Pick(-1000..1000)>>])
          /\ done' = TRUE /\ UNCHANGED <<lam, mats, goal>>
Again == /\ done
         /\ mats' = [i \in 1..Pick(1..3) |-> [m |-> AnyMat(0), t |-> Thickness(0), a |-> Allow(0), nm |-> Name(0)]]
         /\ lam' = <<>> /\ goal' = NewGoal(0) /\ done' = FALSE
Next == AddPly \/ Mirror \/ Nearly \/ Finish \/ Again
=============================================================================
