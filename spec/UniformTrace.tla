---------------------------- MODULE UniformTrace ----------------------------
(***************************************************************************)
(* Validation of recorded sprinkles. Op "even": the points of one large    *)
(* sprinkle, op "split": those of many small ones in order of creation,    *)
(* op "numbers": numbers of events of equal intensities.                   *)
(***************************************************************************)
EXTENDS Uniform, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE ci
Kinds(X) == {x.t : x \in X}

Clauses(c) ==
  IF c.err # "" THEN {"error"}
  ELSE IF c.op = "numbers"
  THEN (IF ~MeanFair(c.k, c.q) THEN {"expected number"} ELSE {})
       \cup (IF ~SpreadFair(c.k, c.q) THEN {"spread of the number"} ELSE {})
  ELSE LET s == TLCEval(Shape(c.a))
           P == c.pts
       IN IF \E i \in DOMAIN P : Len(P[i]) # s.d THEN {"dimension"}
          ELSE {"share of " \o t : t \in Kinds(Uneven(s, P))}
               \cup {"dependent " \o t : t \in Kinds(Dependent(s, P))}

Init == ci = 1
Next ==
  /\ ci <= Len(Cases)
  /\ LET b == TLCEval(Clauses(Cases[ci]))
     IN b # {} => PrintT("BAD " \o ToJson([id |-> Cases[ci].id, c |-> b]))
  /\ (ci = Len(Cases)) => PrintT("DONE " \o ToString(ci))
  /\ ci' = ci + 1
Spec == Init /\ [][Next]_ci
=============================================================================
