-------------------------- MODULE DrawnShapeTrace ---------------------------
(***************************************************************************)
(* Validation of recorded plots of coordinate shapes. Codes of the points: *)
(* 2 on the drawn edge or surface, 1 filled, 0 not filled; in three        *)
(* dimensions only 2 and 0 (surfaces are not filled).                      *)
(***************************************************************************)
EXTENDS DrawnShapes, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE ci

Allowed(s, dims, p) ==
  LET w == Where(s, dims, p)
      n == NearWall(s, dims, p)
  IN CASE w = "on" -> {2}
       [] Len(dims) = 3 -> IF n THEN {0, 2} ELSE {0}
       [] w = "in" -> IF n THEN {1, 2} ELSE {1}
       [] w = "out" -> IF n THEN {0, 2} ELSE {0}

Clauses(c) ==
  IF c.err # "" THEN {"error " \o c.err}
  ELSE LET s == TLCEval(Shape(c.a))
           bad == {i \in DOMAIN c.pts : c.codes[i] \notin Allowed(s, c.dims, c.pts[i])}
       IN {IF Where(s, c.dims, c.pts[i]) = "on" THEN "boundary missing"
           ELSE IF Len(c.dims) = 3 THEN "surface" ELSE "area" : i \in bad}
          \cup (IF c.spur # 0 THEN {"edge"} ELSE {})
          \cup (IF c.count # 1 THEN {"number of artists"} ELSE {})
          \cup (IF ~c.same THEN {"shape changed"} ELSE {})
          \cup (IF c.alpha # c.wanted THEN {"options"} ELSE {})

Init == ci = 1
Next ==
  /\ ci <= Len(Cases)
  /\ LET c == Cases[ci]
         b == TLCEval(Clauses(c))
     IN b # {} => PrintT("BAD " \o ToJson([id |-> c.id, c |-> b]))
  /\ (ci = Len(Cases)) => PrintT("DONE " \o ToString(ci))
  /\ ci' = ci + 1
Spec == Init /\ [][Next]_ci
=============================================================================
