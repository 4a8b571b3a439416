----------------------------- MODULE EdgesTrace -----------------------------
(* Validation of recorded outlines and surfaces.                            *)
EXTENDS Edges, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE ci

Clauses(c) ==
  IF c.err # "" THEN {"error " \o c.err}
  ELSE (IF Good(c.a, c.P) THEN {} ELSE {"form"})
       \cup (IF c.kept THEN {} ELSE {"argument changed"})

Init == ci = 1
Next ==
  /\ ci <= Len(Cases)
  /\ LET c == Cases[ci]
         b == TLCEval(Clauses(c))
     IN b # {} => PrintT("BAD " \o ToJson([id |-> c.id, c |-> b]))
  /\ (ci = Len(Cases)) => PrintT("DONE " \o ToString(ci))
  /\ ci' = ci + 1
Spec == Init /\ [][Next]_ci
=============================================================================
