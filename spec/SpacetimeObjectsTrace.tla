----------------------- MODULE SpacetimeObjectsTrace ------------------------
(* Validation of recorded spacetime objects: a case requests some of them  *)
(* and looks at all that were accepted afterwards.                         *)
EXTENDS SpacetimeObjects, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE ci
One(q, o) ==
  IF ~Valid(q)
  THEN IF o.err = "ValueError" THEN {}
       ELSE IF o.err # "" THEN {"wrong error"} ELSE {"not rejected"}
  ELSE IF o.err # "" THEN {"error"}
  ELSE LET x == Expected(q)
           r == o.res
       IN (IF r.d # x.d THEN {"Dim"} ELSE {})
          \cup (IF r.name # x.name THEN {"Name"} ELSE {})
          \cup (IF r.metric # x.metric THEN {"MetricName"} ELSE {})
          \cup (IF r.v # x.v \/ r.periodic # x.periodic
                THEN {"Parameter"} ELSE {})
          \cup (IF r.shape # x.shape \/ r.sd # x.d \/ ~r.unit
                THEN {"DefaultShape"} ELSE {})
          \cup (IF r.str # x.str THEN {"str"} ELSE {})
Clauses(c) == UNION {{<<j, y>> : y \in One(c.q[j], c.o[j])} :
                       j \in DOMAIN c.q}
Init == ci = 1
Next ==
  /\ ci <= Len(Cases)
  /\ LET c == Cases[ci]
         b == TLCEval(Clauses(c))
     IN b # {} => PrintT("BAD " \o ToJson([id |-> c.id, c |-> b]))
  /\ (ci = Len(Cases)) => PrintT("DONE " \o ToString(ci))
  /\ ci' = ci + 1
Spec == Init /\ [][Next]_ci
=============================================================================
