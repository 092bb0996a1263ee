---------------------------- MODULE Gen_Screening --------------------------
(* Random calls: every argument random, faults in any of them; laminate      *)
(* definitions with any combination of lengths and keys.                     *)
EXTENDS Screening, Draw
VARIABLE n
V(f, k, s) == [f |-> f, k |-> k, s |-> s]
RNum(kind) == CASE kind = "poisson" -> V(Pick({"float", "str", "npfloat", "decimal"}), IF Chance(8) THEN Pick(-6000..6000) ELSE Pick(-5000..5000), 4)
                [] kind = "size" -> IF Chance(10) THEN V("float", Pick(-5..400), 1) ELSE V(Pick({"int", "npint", "str", "float"}), Pick(1..30), 0)
                [] kind = "nonneg" -> IF Chance(8) THEN V("float", Pick(-100..10), 2) ELSE V(Pick({"int", "float", "str", "padded", "npfloat", "npint", "decimal"}), Pick(1..2000000), 0)
                [] OTHER -> V(Pick({"int", "float", "str", "npfloat"}), Pick(-2000000..2000000), 0)
RVal(kind) == IF Chance(30) THEN V(Pick(BadForms), 0, 0) ELSE RNum(kind)
Call(c) == [cls |-> c, style |-> Pick({"positional", "keyword"}),
            args |-> [i \in 1..Len(Sig[c]) |-> [n |-> Sig[c][i].n, v |-> RVal(Sig[c][i].kind),
                                                given |-> (Sig[c][i].d = "" \/ Chance(2))]]]
\* materials made one after the other, some kept and some discarded at once, each read several times
Maker(d) == [cls |-> Pick({"ortho", "iso"}), name |-> Pick({"(none)", "(none)", "(none)", "(None)", "", "T300/5208", "ply_1", "lamina 2"}),
             keep |-> Chance(2), reads |-> Pick(0..3)]
Init == n = 0
Next == /\ n' = n + 1
        /\ Emit("call", Call(Pick(Classes)))
        /\ (n % 20 = 0) => Emit("names", [i \in 1..Pick(2..25) |-> Maker(i)])
        /\ Emit("lam", [angles |-> Pick(1..9), plies |-> Pick({-1, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9}), box |-> Pick({"list", "tuple", "array"})])
        /\ Emit("lp", [xiA |-> Chance(2), xiB |-> Chance(3), xiD |-> ~Chance(3), T |-> ~Chance(3)])
        /\ Emit("prop", [what |-> Pick({"none", "number", "text", "material", "list", "dict", "plate", "laminate", "lp", "class"})])
=============================================================================
