--------------------------- MODULE ConstructTrace ---------------------------
(* Validation of recorded constructions, see Construct.                    *)
EXTENDS Construct, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE ci
Elem(s) == {s[i] : i \in DOMAIN s}
Clauses(c) ==
  IF ~Consistent(c.q)
  THEN IF c.err = "ValueError" THEN {}
       ELSE IF c.err # "" THEN {"wrong error"} ELSE {"not rejected"}
  ELSE IF c.err # "" THEN {"error"}
  ELSE LET x == Expected(c.q)
           r == c.res
       IN (IF r.d # x.d \/ r.std # x.d \/ r.shd # x.d THEN {"dimension"} ELSE {})
          \cup (IF r.st # x.st THEN {"spacetime"} ELSE {})
          \cup (IF r.sh # x.sh THEN {"shape"} ELSE {})
          \cup (IF ~r.same THEN {"given object not used"} ELSE {})
          \cup (IF ~r.unit THEN {"default parameters"} ELSE {})
          \cup (IF r.n # x.n THEN {"events"} ELSE {})
          \cup (IF \E y \in Elem(r.late) : y # "ValueError"
                THEN {"late coordinates not rejected"} ELSE {})
          \cup (IF ~r.kept THEN {"rejected coordinates kept"} ELSE {})
          \cup (IF \E y \in Elem(r.crd) : y # x.d THEN {"coordinates"} ELSE {})
Init == ci = 1
Next ==
  /\ ci <= Len(Cases)
  /\ LET c == Cases[ci]
         b == TLCEval(Clauses(c))
     IN b # {} => PrintT("BAD " \o ToJson([id |-> c.id, c |-> b]))
  /\ (ci = Len(Cases)) => PrintT("DONE " \o ToString(ci))
  /\ ci' = ci + 1
Spec == Init /\ [][Next]_ci
=============================================================================
