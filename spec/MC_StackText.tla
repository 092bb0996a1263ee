---------------------------- MODULE MC_StackText ---------------------------
(***************************************************************************)
(* All abstract texts with up to MaxEls elements over a small alphabet, in *)
(* every style; each is written out and read back one character at a time. *)
(* A finished reading must have collected exactly the denoted plies, and   *)
(* the denotation obeys the length, mirror and concatenation laws.  Every  *)
(* text is emitted, to be replayed into the real function.                 *)
(***************************************************************************)
EXTENDS StackText, Json
CONSTANT MaxEls

U(a, pm, n, c) == [t |-> "u", a |-> a, pm |-> pm, n |-> n, curly |-> c]
Units == {U(4500, FALSE, 0, FALSE), U(-2250, FALSE, 2, TRUE), U(3000, TRUE, 3, FALSE), U(0, TRUE, 0, FALSE), U(9025, TRUE, 2, TRUE)}
G(us, n, c) == [t |-> "g", us |-> us, n |-> n, curly |-> c]
SomeUnits == {U(9000, FALSE, 0, FALSE), U(6000, TRUE, 2, FALSE)}
Groups == {G(<<u>>, 2, FALSE) : u \in SomeUnits} \cup {G(<<u, v>>, n, n = 3) : u, v \in SomeUnits, n \in {0, 1, 3}}
B(s) == [t |-> "b", s |-> s]
Wrong == {B("x"), B("0_1.5"), B("0__2"), B("-"), G(<<U(0, FALSE, 0, FALSE), B("")>>, 2, FALSE)}
Els == Units \cup Groups \cup Wrong
Texts == {[els |-> es, br |-> br, sym |-> sy, bl |-> bl] :
            es \in UNION {[1..k -> IF k < 3 THEN Els ELSE Units \cup Groups] : k \in 1..MaxEls}, br \in {TRUE, FALSE}, sy \in {"", "s", "S"}, bl \in {TRUE, FALSE}}

VARIABLES x, pos, st, gs
Init == x \in Texts /\ (Len(x.els) > 2 => x.sym # "S") /\ pos = 0 /\ st = ScanStart /\ gs = Begun
Txt == TLCEval(Render(x))
Next == /\ pos < Len(Txt)
        /\ st' = IF Broken(x) THEN st ELSE ScanStep(st, SubSeq(Txt, pos + 1, pos + 1))
        /\ gs' = GramStep(gs, SubSeq(Txt, pos + 1, pos + 1))
        /\ pos' = pos + 1 /\ UNCHANGED x
AtEnd == pos = Len(Txt)
ReadsBack == AtEnd /\ ~Broken(x) => ScanEnd(st) = Denote(x)
Told == AtEnd => Whole(gs) = ~Broken(x)
Laws == AtEnd /\ ~Broken(x) =>
   /\ Len(Denote(x)) = (IF x.sym = "" THEN 1 ELSE 2) * Len(Half(x))
   /\ (x.sym # "") => Reverse(Denote(x)) = Denote(x)
   /\ Len(x.els) = 2 => Half(x) = DenoteEl(x.els[1]) \o DenoteEl(x.els[2])
NeverEarly == Broken(x) \/ \A k \in 1..Len(st.out) : st.out[k] = Half(x)[k]      \* a prefix at every moment
Emitted == AtEnd => PrintT("GEN " \o ToJson([text |-> Txt, x |-> x]))
=============================================================================
