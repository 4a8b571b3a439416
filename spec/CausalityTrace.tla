--------------------------- MODULE CausalityTrace ---------------------------
(***************************************************************************)
(* Validation of recorded answers of Spacetime.Causality(). A case holds a *)
(* spacetime, a list of points and the answers for all ordered pairs as    *)
(* numbers 2 * (x <= y) + (x > y), or -1 for anything else.                *)
(*                                                                         *)
(* Lattice points (pts) are judged by Spacetimes. For arbitrary real       *)
(* points (m.k = "any", with the ranks of their time coordinates) the      *)
(* answers have to be a partial order that follows the time coordinate.    *)
(***************************************************************************)
EXTENDS Spacetimes, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE ci

Bit(b, v) == IF b THEN v ELSE 0
Code(c) == Bit(c[1], 2) + Bit(c[2], 1)

Exact(c) ==
  {<<i, j>> \in (DOMAIN c.pts) \X (DOMAIN c.pts) :
     /\ c.res[i][j] # Code(Causal(c.m, c.pts[i], c.pts[j]))
     /\ (c.res[i][j] \in 0..2 /\ OnRay(c.m, c.pts[i], c.pts[j])) =>
          Code(Causal(c.m, c.pts[i], c.pts[j])) + c.res[i][j] = 3}

Le(c, i, j) == c.res[i][j] \in {2, 3}
Axioms(c) ==
  LET D == DOMAIN c.time IN
  {p \in D \X D :
     LET i == p[1]
         j == p[2]
     IN \/ c.res[i][j] \notin {0, 1, 2}
        \/ i = j /\ c.res[i][j] = 1
        \/ i # j /\ (c.res[i][j] = 1) # (c.res[j][i] = 2)
        \/ Le(c, i, j) /\ c.time[i] > c.time[j]
        \/ Le(c, i, j) /\ \E k \in D : Le(c, j, k) /\ ~Le(c, i, k)}

First(S) == CHOOSE p \in S : \A r \in S : p[1] < r[1] \/
                                         (p[1] = r[1] /\ p[2] <= r[2])
Clauses(c) ==
  IF c.err # "" THEN {<<"error", 0, 0>>}
  ELSE LET bad == IF c.m.k = "any" THEN Axioms(c) ELSE Exact(c)
           kind == IF c.m.k = "any" THEN "axioms" ELSE "cone"
       IN (IF bad = {} THEN {} ELSE {<<kind, First(bad)[1], First(bad)[2]>>})
          \cup (IF c.args THEN {} ELSE {<<"arguments", 0, 0>>})

Init == ci = 1
Next ==
  /\ ci <= Len(Cases)
  /\ LET c == Cases[ci]
         b == TLCEval(Clauses(c))
     IN b # {} => PrintT("BAD " \o ToJson([id |-> c.id, c |-> b]))
  /\ (ci = Len(Cases)) => PrintT("DONE " \o ToString(ci))
  /\ ci' = ci + 1
Spec == Init /\ [][Next]_ci
=============================================================================
