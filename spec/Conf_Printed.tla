---------------------------- MODULE Conf_Printed ----------------------------
(* Event: what the object was built from and the texts it printed as        *)
(* (printed at once, as text, again after its values have been read).       *)
EXTENDS TraceBase, Printed
OneText(e) == \A i \in 1..Len(e.texts) : e.texts[i] = e.texts[1]
Judge(e) ==
    IF e.err # "" THEN {"printable"} ELSE
    Clause("always_the_same_text", OneText(e))
    \cup (IF e.kind \in {"ortho", "iso"}
          THEN LET s == TLCEval(ShowsMaterial(e.texts[1], e.kind, e.name, e.num)) IN
               Clause("name_shown", s.name) \cup Clause("each_constant_under_its_label", s.constants)
          ELSE Clause(IF e.kind = "stack" THEN "angles_in_order" ELSE "parameters_and_thickness", ShowsLaminate(e.texts[1], e.kind, e)))
Init == TraceInit
Next == Consume(Judge)
=============================================================================
