----------------------------- MODULE NewtonTrace ----------------------------
(***************************************************************************)
(* Validation of recorded results of NewtonsMethod. Op "table": a problem  *)
(* of Newton.tla, results in halves. Op "power": the root of x^e = r^e     *)
(* (rising or falling, scaled), results in units of 10^-6.                 *)
(***************************************************************************)
EXTENDS Newton, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE ci
Clauses(c) ==
  IF c.err # "" THEN {"error"}
  ELSE IF c.op = "table"
  THEN (IF c.res # 2 * Result(c.q) THEN {"result"} ELSE {})
       \cup (IF ~c.kept THEN {"asked beyond the limits"} ELSE {})
  ELSE IF AbsN(c.res - 1000000 * c.r) > 100 THEN {"root"} ELSE {}
Init == ci = 1
Next ==
  /\ ci <= Len(Cases)
  /\ LET b == TLCEval(Clauses(Cases[ci]))
     IN b # {} => PrintT("BAD " \o ToJson([id |-> Cases[ci].id, c |-> b]))
  /\ (ci = Len(Cases)) => PrintT("DONE " \o ToString(ci))
  /\ ci' = ci + 1
Spec == Init /\ [][Next]_ci
=============================================================================
