------------------------------- MODULE Pcomp -------------------------------
(***************************************************************************)
(* The PCOMP bulk-data entry, read by the free-field rules.  A reader      *)
(* consumes the card one character at a time: commas end fields, newlines  *)
(* end lines.  A line has a name or continuation field, eight data fields  *)
(* and a continuation field.  The data fields of all lines, one after the  *)
(* other, are: id, offset, nsm, sb, ft, tref, damping, lam, and then four  *)
(* per ply: material id, thickness, angle, output request.                 *)
(***************************************************************************)
EXTENDS Fx

Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
\* ---- the reader: state <<lines read, fields of the current line, current field>>
ReadStart == [lines |-> <<>>, fields |-> <<>>, cur |-> ""]
Blank == {" "}
ReadStep(s, c) ==
    CASE c = "," -> [s EXCEPT !.fields = Append(@, s.cur), !.cur = ""]
      [] c = "\n" -> [lines |-> Append(s.lines, Append(s.fields, s.cur)), fields |-> <<>>, cur |-> ""]
      [] c \in Blank -> s
      [] OTHER -> [s EXCEPT !.cur = @ \o c]
ReadEnd(s) == IF s.fields = <<>> /\ s.cur = "" THEN s.lines ELSE Append(s.lines, Append(s.fields, s.cur))
ReadLines(t) == ReadEnd(FoldLeft(LAMBDA s, c : ReadStep(s, c), ReadStart, Chars(t)))

Field(line, k) == IF k <= Len(line) THEN line[k] ELSE ""
Data(line) == [k \in 1..8 |-> Field(line, k + 1)]
Cont(line) == Field(line, 10)
IsMark(f) == f # "" /\ SubSeq(f, 1, 1) = "+"
\* a line followed by another: its tenth field is the other's first, or blank
Linked(lines) ==
    /\ \A i \in 1..Len(lines) : Len(lines[i]) <= 10 /\ (Cont(lines[i]) = "" \/ IsMark(Cont(lines[i])))
    /\ \A i \in 2..Len(lines) : IsMark(lines[i][1]) /\ Cont(lines[i - 1]) \in {"", lines[i][1]}
AllData(lines) == FoldLeft(LAMBDA acc, ln : acc \o Data(ln), <<>>, lines)

\* ---- numbers as written in a field
DigitOf == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |-> CHOOSE d \in 0..9 : ToString(d) = c]
NumStart == [ok |-> TRUE, neg |-> FALSE, m |-> BZero, dec |-> -1, inexp |-> FALSE, eneg |-> FALSE, e |-> 0, any |-> FALSE]
NumStep(s, c) ==
    CASE c \in DOMAIN DigitOf ->
            IF s.inexp THEN [s EXCEPT !.e = 10 * @ + DigitOf[c]]
            ELSE [s EXCEPT !.m = BAdd(BMul(@, BOf(10)), BOf(DigitOf[c])), !.any = TRUE,
                           !.dec = IF @ >= 0 THEN @ + 1 ELSE @]
      [] c = "." -> IF s.dec >= 0 \/ s.inexp THEN [s EXCEPT !.ok = FALSE] ELSE [s EXCEPT !.dec = 0]
      [] c \in {"e", "E", "d", "D"} -> [s EXCEPT !.inexp = TRUE]
      [] c = "-" -> IF s.inexp THEN [s EXCEPT !.eneg = TRUE] ELSE [s EXCEPT !.neg = TRUE]
      [] c = "+" -> s
      [] OTHER -> [s EXCEPT !.ok = FALSE]
RECURSIVE TenPow(_)
TenPow(k) == IF k = 0 THEN BOf(1) ELSE BMul(TenPow(k - 1), BOf(10))
NumVal(t) ==
    LET s == FoldLeft(LAMBDA a, c : NumStep(a, c), NumStart, Chars(t))
        p == (IF s.eneg THEN -s.e ELSE s.e) - (IF s.dec > 0 THEN s.dec ELSE 0)
        b == IF p >= 0 THEN BShl(BMul(s.m, TenPow(p)), FL) ELSE BDiv(BShl(s.m, FL), TenPow(-p))
    IN IF ~s.ok \/ ~s.any THEN NaN ELSE IF s.neg THEN BNeg(b) ELSE b
IsNum(t, v) == FNear(NumVal(t), v, FTenTo(12), FMax(FAbs(v), FTenTo(9)))

\* ---- what a card must say.  Per-ply argument: a tuple of one (for all) or one per ply.
ForPly(x, i) == IF x.all THEN x.v[1] ELSE x.v[i]
OutRequest(so, i, n) ==
    CASE so.kind = "FIBER" -> IF i = 1 \/ i = n THEN "YES" ELSE "NO"
      [] so.kind = "YES" -> "YES"  [] so.kind = "NO" -> "NO"
      [] OTHER -> so.v[i]
=============================================================================
