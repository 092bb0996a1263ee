---------------------------- MODULE Gen_StackText --------------------------
(* Random texts of many elements: one element is appended per step.        *)
EXTENDS StackText, Draw
VARIABLES els, goal
AngleH(d) == IF Chance(2) THEN Pick({0, 1500, 3000, 4500, 6000, 9000, -4500, -3000, -6000}) ELSE Pick(-9000..9000)
Cnt(d) == IF Chance(2) THEN 0 ELSE IF Chance(12) THEN Pick(13..130) ELSE Pick(1..12)
Wrong(d) == [t |-> "b", s |-> Pick({"", "x", "4x", "x4", "--5", "4-5", "-", "0_", "0_x", "0_1.5", "0_{}", "0_{x}", "90_{2.0}", "0__2", "0_2_3", "0 90",
                                    "0,90", "\\pm", "\\pm_2", "1.2.3", ".", "_2", "45deg", "0;90", "(0/90)_x", "(0/90)_1.5", "(0/90)_{y}", "(0/)", "(0/90)_2 45"})]
Plain(w) == IF Len(w.s) > 3 /\ SubSeq(w.s, 1, 1) = "(" THEN [t |-> "b", s |-> "y"] ELSE w      \* no group inside a group
RUnit(d) == LET n == Cnt(0) IN [t |-> "u", a |-> AngleH(0), pm |-> Chance(3), n |-> n, curly |-> Chance(2)]
WrongIn(d) == CHOOSE w \in {Plain(Wrong(d))} : TRUE
RGroup(bad) == [t |-> "g", us |-> [i \in 1..Pick(1..4) |-> IF bad /\ Chance(40) THEN WrongIn(i) ELSE RUnit(i)], n |-> IF Chance(3) THEN 0 ELSE Pick(1..12), curly |-> Chance(2)]
Init == els = <<>> /\ goal = 1
More == Len(els) < goal /\ els' = Append(els, CASE Chance(3) -> RGroup(TRUE) [] Chance(40) -> Wrong(0) [] OTHER -> RUnit(0)) /\ UNCHANGED goal
Done == /\ Len(els) >= goal
        /\ \E x \in {TLCEval([els |-> els, br |-> Chance(2) \/ (Len(els) = 1 /\ els[1].t = "b"), sym |-> Pick({"", "s", "S"}), bl |-> Chance(3)])} :
           PrintT("GEN " \o ToJson([text |-> Render(x), x |-> x]))
        /\ els' = <<>> /\ goal' = IF Chance(12) THEN Pick(10..40) ELSE Pick(1..9)
Next == More \/ Done
=============================================================================
