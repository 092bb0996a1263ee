----------------------------- MODULE StackText -----------------------------
(***************************************************************************)
(* Stacking texts.  An abstract text is                                    *)
(*   [els, br, sym, bl]   elements; bracketed or not; final symmetric mark *)
(*                        ("", "s" or "S"); blanks around elements or not  *)
(* with elements                                                           *)
(*   [t |-> "u", a, pm, n, curly]   angle in hundredths of a degree, plus- *)
(*                        minus prefix, repeat count (0: not written),     *)
(*                        count in braces or not                           *)
(*   [t |-> "g", us, n, curly]      group of units                         *)
(*   [t |-> "b", s]       something written where a unit belongs that is   *)
(*                        no unit: such a text is no stacking              *)
(* Denote gives the plies (angles in hundredths); Render writes the text;  *)
(* Scan reads a text back, one character per transition, knowing nothing   *)
(* of the abstract text.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

Times(n) == IF n = 0 THEN 1 ELSE n
Cat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)
CatS(ss) == FoldLeft(LAMBDA acc, x : acc \o x, "", ss)
Repeat(s, n) == Cat([i \in 1..n |-> s])

DenoteUnit(u) == [i \in 1..Times(u.n) |-> IF u.pm /\ i % 2 = 0 THEN -u.a ELSE u.a]
DenoteEl(e) == IF e.t = "u" THEN DenoteUnit(e)
               ELSE Repeat(Cat([i \in 1..Len(e.us) |-> DenoteUnit(e.us[i])]), Times(e.n))
Half(x) == Cat([i \in 1..Len(x.els) |-> DenoteEl(x.els[i])])
Denote(x) == IF x.sym = "" THEN Half(x) ELSE Half(x) \o Reverse(Half(x))

\* ---- writing
Digits(n) == ToString(n)
NumText(a) == LET m == IF a < 0 THEN -a ELSE a
                  f == m % 100
              IN (IF a < 0 THEN "-" ELSE "") \o Digits(m \div 100) \o
                 (IF f = 0 THEN "" ELSE IF f % 10 = 0 THEN "." \o Digits(f \div 10)
                  ELSE "." \o (IF f < 10 THEN "0" ELSE "") \o Digits(f))
CountText(n, curly) == IF n = 0 THEN "" ELSE IF curly THEN "_{" \o Digits(n) \o "}" ELSE "_" \o Digits(n)
UnitText(u) == IF u.t = "b" THEN u.s ELSE (IF u.pm THEN "\\pm" ELSE "") \o NumText(u.a) \o CountText(u.n, u.curly)
Join(ss, sep) == CatS([i \in 1..Len(ss) |-> IF i = 1 THEN ss[1] ELSE sep \o ss[i]])
ElText(e, b) == IF e.t # "g" THEN UnitText(e)
                ELSE "(" \o b \o Join([i \in 1..Len(e.us) |-> UnitText(e.us[i])], b \o "/" \o b) \o b \o ")"
                     \o CountText(e.n, e.curly)
Render(x) == LET b == IF x.bl THEN " " ELSE "" IN
    b \o (IF x.br THEN "[" \o b ELSE "")
      \o Join([i \in 1..Len(x.els) |-> ElText(x.els[i], b)], b \o "/" \o b)
      \o b \o (IF x.br THEN "]" ELSE "") \o x.sym \o b
Broken(x) == \E i \in 1..Len(x.els) : LET e == x.els[i] IN
                 e.t = "b" \/ (e.t = "g" /\ \E j \in 1..Len(e.us) : e.us[j].t = "b")
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]

\* ---- reading
\* the notation's automaton: what may follow what.  ph: e an element is due, p q m inside \pm, n a sign,
\* i d (point) f digits of the angle, c b the count's beginning (in braces), k l its digits, t after an
\* element, g after a group, z after the closing bracket, y after the symmetric mark, x no stacking
Ten == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Begun == [ph |-> "e", in |-> FALSE, first |-> TRUE]
After1(s, c) ==                                  \* what may follow a finished angle or count
    CASE c = " " -> [s EXCEPT !.ph = "t"] [] c = "/" -> [s EXCEPT !.ph = "e"]
      [] c = ")" /\ s.in -> [s EXCEPT !.ph = "g", !.in = FALSE]
      [] c = "]" /\ ~s.in -> [s EXCEPT !.ph = "z"]
      [] c \in {"s", "S"} /\ ~s.in -> [s EXCEPT !.ph = "y"] [] OTHER -> [s EXCEPT !.ph = "x"]
GramStep(s0, c) ==
    LET s == [s0 EXCEPT !.first = @ /\ c = " "]
        to(p) == [s EXCEPT !.ph = p]
        isd == c \in Ten
    IN CASE s.ph = "e" -> (CASE c = " " -> s [] isd -> to("i") [] c = "-" -> to("n") [] c = "\\" -> to("p")
                             [] c = "[" /\ s0.first -> to("e") [] c = "(" /\ ~s.in -> [s EXCEPT !.in = TRUE] [] OTHER -> to("x"))
         [] s.ph = "p" -> to(IF c = "p" THEN "q" ELSE "x")
         [] s.ph = "q" -> to(IF c = "m" THEN "m" ELSE "x")
         [] s.ph = "m" -> (CASE c = " " -> s [] isd -> to("i") [] c = "-" -> to("n") [] OTHER -> to("x"))
         [] s.ph = "n" -> to(IF isd THEN "i" ELSE "x")
         [] s.ph = "i" -> IF isd THEN s ELSE IF c = "." THEN to("d") ELSE IF c = "_" THEN to("c") ELSE After1(s, c)
         [] s.ph = "d" -> to(IF isd THEN "f" ELSE "x")
         [] s.ph = "f" -> IF isd THEN s ELSE IF c = "_" THEN to("c") ELSE After1(s, c)
         [] s.ph = "c" -> to(IF c = "{" THEN "b" ELSE IF isd THEN "k" ELSE "x")
         [] s.ph = "b" -> to(IF isd THEN "l" ELSE "x")
         [] s.ph = "k" -> IF isd THEN s ELSE After1(s, c)
         [] s.ph = "l" -> IF isd THEN s ELSE to(IF c = "}" THEN "t" ELSE "x")
         [] s.ph = "t" -> After1(s, c)
         [] s.ph = "g" -> IF c = "_" THEN to("c") ELSE After1(s, c)
         [] s.ph = "z" -> (CASE c = " " -> s [] c \in {"s", "S"} -> to("y") [] OTHER -> to("x"))
         [] s.ph = "y" -> to(IF c = " " THEN "y" ELSE "x")
         [] OTHER -> s
Whole(s) == s.ph \in {"i", "f", "k", "t", "g", "z", "y"} /\ ~s.in
IsStacking(t) == Whole(FoldLeft(LAMBDA s, c : GramStep(s, c), Begun, Chars(t)))

DigitOf == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
              CHOOSE d \in 0..9 : ToString(d) = c]
Fresh == [neg |-> FALSE, v |-> 0, dec |-> -1, pm |-> FALSE, n |-> 0, cnt |-> FALSE]
ScanStart == [u |-> Fresh, out |-> <<>>, grp |-> <<>>, in |-> FALSE, after |-> FALSE, sym |-> FALSE]
UnitOf(u) == LET h == CASE u.dec <= 0 -> u.v * 100 [] u.dec = 1 -> u.v * 10 [] OTHER -> u.v
             IN [a |-> IF u.neg THEN -h ELSE h, pm |-> u.pm, n |-> u.n]
Flush(s) == IF s.after THEN [s EXCEPT !.out = @ \o Repeat(s.grp, Times(s.u.n)), !.grp = <<>>, !.after = FALSE, !.u = Fresh]
            ELSE IF s.in THEN [s EXCEPT !.grp = @ \o DenoteUnit(UnitOf(s.u)), !.u = Fresh]
            ELSE [s EXCEPT !.out = @ \o DenoteUnit(UnitOf(s.u)), !.u = Fresh]
ScanStep(s, c) ==
    CASE c \in {" ", "[", "]", "{", "}", "p", "m"} -> s
      [] c \in {"s", "S"} -> [s EXCEPT !.sym = TRUE]
      [] c = "\\" -> [s EXCEPT !.u.pm = TRUE]
      [] c = "-" -> [s EXCEPT !.u.neg = TRUE]
      [] c = "." -> [s EXCEPT !.u.dec = 0]
      [] c = "_" -> [s EXCEPT !.u.cnt = TRUE]
      [] c = "(" -> [s EXCEPT !.in = TRUE]
      [] c = "/" -> Flush(s)
      [] c = ")" -> [Flush(s) EXCEPT !.in = FALSE, !.after = TRUE, !.u = Fresh]
      [] c \in DOMAIN DigitOf ->
           IF s.u.cnt THEN [s EXCEPT !.u.n = 10 * @ + DigitOf[c]]
           ELSE [s EXCEPT !.u.v = 10 * @ + DigitOf[c], !.u.dec = IF @ >= 0 THEN @ + 1 ELSE @]
ScanEnd(s) == LET o == Flush(s).out IN IF s.sym THEN o \o Reverse(o) ELSE o
ScanText(t) == ScanEnd(FoldLeft(LAMBDA s, c : ScanStep(s, c), ScanStart, Chars(t)))
=============================================================================
