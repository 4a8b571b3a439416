---------------------------- MODULE PrintedTrace ----------------------------
(***************************************************************************)
(* Validation of recorded printed forms, see Printed. A case is            *)
(*   kind "events": steps; a step "print" holds short and full, the texts  *)
(*     of the event e, a step "causet" the members, their texts and form;  *)
(*     err is the name of an error, kept is FALSE if printing has changed  *)
(*     the order or the labels of any event                                *)
(*   kind "spacetime", "shape": the request q, short, and of the full form *)
(*     cls, dim, words, params (pairs of a name and numbers)               *)
(***************************************************************************)
EXTENDS Printed, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE ci

StepClauses(st, s) ==
  IF s.err # "" THEN {"error " \o s.err}
  ELSE IF s.op = "print"
  THEN (IF s.short # Short(st.lab[s.e]) THEN {"str"} ELSE {})
       \cup (IF s.full \notin Full(st, s.e) THEN {"repr"} ELSE {})
       \cup (IF ~s.kept THEN {"changed by printing"} ELSE {})
  ELSE IF s.op = "causet"
  THEN (IF s.full \notin SetForm(s.texts) \/ s.short # s.full
        THEN {"causet"} ELSE {})
       \cup (IF \E i \in DOMAIN s.members :
                  s.texts[i] \notin Full(st, s.members[i])
             THEN {"repr"} ELSE {})
       \cup (IF ~s.kept THEN {"changed by printing"} ELSE {})
  ELSE {}
RECURSIVE Judge(_, _, _)
Judge(st, c, i) ==
  IF i > Len(c.steps) THEN {}
  ELSE LET t == Step(st, c.steps[i])
       IN StepClauses(t, c.steps[i]) \cup Judge(t, c, i + 1)

ObjectClauses(c, short, cls, params, words) ==
  IF c.err # "" THEN {"error " \o c.err}
  ELSE (IF c.short # short THEN {"str"} ELSE {})
       \cup (IF c.cls # cls \/ c.dim # c.q.d THEN {"repr class"} ELSE {})
       \cup (IF Elem(c.params) # params THEN {"repr parameters"} ELSE {})
       \cup (IF ~(words \subseteq Elem(c.words)) THEN {"repr names"} ELSE {})
       \cup (IF ~c.kept THEN {"printed differently"} ELSE {})

Clauses(c) ==
  IF c.kind = "events" THEN Judge(Empty, c, 1)
  ELSE IF c.kind = "spacetime"
  THEN ObjectClauses(c, SpacetimeShort(c.q), SpacetimeClass(c.q.k),
                     SpacetimeParams(c.q), SpacetimeWords(c.q))
  ELSE ObjectClauses(c, ShapeShort(c.q), "CoordinateShape", ShapeParams(c.q),
                     {ShapeName(c.q.name)})

Init == ci = 1
Next ==
  /\ ci <= Len(Cases)
  /\ LET c == Cases[ci]
         b == TLCEval(Clauses(c))
     IN b # {} => PrintT("BAD " \o ToJson([id |-> c.id, c |-> b]))
  /\ (ci = Len(Cases)) => PrintT("DONE " \o ToString(ci))
  /\ ci' = ci + 1
Spec == Init /\ [][Next]_ci
=============================================================================
