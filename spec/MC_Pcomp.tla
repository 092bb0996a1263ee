------------------------------ MODULE MC_Pcomp ------------------------------
(***************************************************************************)
(* Cards written by an abstract writer (ply tuples of up to MaxPlies plies *)
(* over a small alphabet) and read back a character at a time: the reader  *)
(* returns the plies, whichever of the allowed forms of continuation and   *)
(* trailing blanks the writer uses.                                        *)
(***************************************************************************)
EXTENDS Pcomp
CONSTANT MaxPlies
Alphabet == {<<"1", "0.2", "45.0", "YES">>, <<"37", "1e-05", "-30", "NO">>, <<"2", ".125", "0", "YES">>}
Styles == {"plus", "named", "blank"}
VARIABLES plies, style, pos, st
Mark(i) == IF style = "named" THEN "+M" \o ToString(i) ELSE "+"
J(p) == p[1] \o "," \o p[2] \o "," \o p[3] \o "," \o p[4]
NL == (Len(plies) + 1) \div 2
RECURSIVE Body(_)
Body(i) == IF i > NL THEN "" ELSE
    Mark(i) \o "," \o J(plies[2 * i - 1]) \o
    (IF 2 * i <= Len(plies) THEN "," \o J(plies[2 * i]) \o
         (IF style # "blank" /\ i < NL THEN "," \o Mark(i + 1) ELSE "") ELSE "")
    \o "\n" \o Body(i + 1)
Txt == TLCEval("PCOMP,7,-0.5,,,,,," \o (IF style = "blank" THEN "" ELSE "," \o Mark(1)) \o "\n" \o Body(1))
Init == /\ plies \in UNION {[1..k -> Alphabet] : k \in 1..MaxPlies} /\ style \in Styles
        /\ pos = 0 /\ st = ReadStart
Next == /\ pos < Len(Txt) /\ st' = ReadStep(st, SubSeq(Txt, pos + 1, pos + 1)) /\ pos' = pos + 1
        /\ UNCHANGED <<plies, style>>
ReadsBack == pos = Len(Txt) =>
    LET L == ReadEnd(st)  d == AllData(L) IN
    /\ Linked(L) /\ L[1][1] = "PCOMP"
    /\ d[1] = "7" /\ NumVal(d[2]) = FNeg(FRat(1, 2)) /\ \A k \in 3..8 : d[k] = ""
    /\ \A i \in 1..Len(plies) : \A k \in 1..4 : d[8 + 4 * (i - 1) + k] = plies[i][k]
    /\ \A k \in (9 + 4 * Len(plies))..Len(d) : d[k] = ""
Numbers == /\ NumVal("1e-05") = FTenTo(5) /\ NumVal(".125") = FRat(1, 8) /\ NumVal("-30") = FInt(-30)
           /\ NumVal("1.5E+2") = FInt(150) /\ NumVal("YES+") = NaN /\ NumVal("") = NaN
ASSUME Numbers
=============================================================================
