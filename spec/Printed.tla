------------------------------ MODULE Printed ------------------------------
(***************************************************************************)
(* The printed form of an object, read by a person: labels followed by     *)
(* numbers.  A reader consumes the text one character at a time.  A word   *)
(* followed by "=" or ":" opens an entry; every number after it belongs to *)
(* that entry until the next one is opened.  Brackets, quotes, commas and  *)
(* blanks only separate words.                                             *)
(***************************************************************************)
EXTENDS Pcomp

Separators == {" ", "\n", ",", ";", "(", ")", "[", "]", "{", "}", "'", "\""}
Opens == {"=", ":"}
LookStart == [cur |-> "", last |-> "", entries |-> <<>>]
WordEnd(s) ==
    IF s.cur = "" THEN s
    ELSE IF NumVal(s.cur) = NaN \/ s.entries = <<>> THEN [s EXCEPT !.last = s.cur, !.cur = ""]
    ELSE [s EXCEPT !.entries[Len(s.entries)].nums = Append(@, NumVal(s.cur)), !.last = "", !.cur = ""]
LookStep(s, c) ==
    CASE c \in Separators -> WordEnd(s)
      [] c \in Opens -> LET w == WordEnd(s) IN
            [w EXCEPT !.entries = IF w.last = "" THEN @ ELSE Append(@, [label |-> w.last, nums |-> <<>>]), !.last = ""]
      [] OTHER -> [s EXCEPT !.cur = @ \o c]
LookEnd(s) == WordEnd(s).entries
Look(t) == LookEnd(FoldLeft(LAMBDA s, c : LookStep(s, c), LookStart, Chars(t)))

Under(E, label) == SelectSeq(E, LAMBDA x : x.label = label)
\* the number read is the double v itself: no further away than half the distance between doubles
Exactly(x, v) == x # NaN /\ IsFx(v) /\ FLe(FMulI(FMulI(FAbs(FSub(x, v)), 67108864), 134217728), FAdd(FAbs(v), FTenTo(25)))
ShowsAll(E, label, vs) == LET u == Under(E, label) IN
    Len(u) = 1 /\ Len(u[1].nums) = Len(vs) /\ \A i \in 1..Len(vs) : Exactly(u[1].nums[i], vs[i])
Occurs(t, w) == w = "" \/ \E i \in 1..(Len(t) - Len(w) + 1) : SubSeq(t, i, i + Len(w) - 1) = w

\* ---- what each kind of object shows
Labels == [ortho |-> <<"E1", "E2", "v12", "G12", "thickness", "T1", "C1", "T2", "C2", "S">>,
           iso |-> <<"E", "v", "G", "thickness", "T", "C", "S">>]
\* a material: its name, and each constant under its label and nothing else there
ShowsMaterial(t, kind, name, nums) ==
    LET E == TLCEval(Look(t)) IN
    [name |-> Occurs(t, name),
     constants |-> Len(nums) = Len(Labels[kind]) /\ \A i \in 1..Len(nums) : ShowsAll(E, Labels[kind][i], <<nums[i]>>)]
\* a laminate: its angles from the bottom up; or its parameters and its thickness, and no parameters it was not given
ShowsLaminate(t, kind, d) ==
    LET E == TLCEval(Look(t)) IN
    IF kind = "stack" THEN ShowsAll(E, "stacking", d.ang)
    ELSE \A k \in {"xiA", "xiB", "xiD", "T"} : IF d[k] = <<>> THEN Under(E, k) = <<>> ELSE ShowsAll(E, k, d[k])
=============================================================================
