---------------------------- MODULE DrawnShapes -----------------------------
(***************************************************************************)
(* What a plot of a coordinate shape has to show: the cut of the region    *)
(* through its centre along the plotted coordinates. Points p are given    *)
(* relative to the centre, in tenths of the length unit, as integers, one  *)
(* for each plotted coordinate dims[i] (from 0, the time).                 *)
(***************************************************************************)
EXTENDS Shapes

TimeAxis(dims) == IF \E i \in DOMAIN dims : dims[i] = 0
                  THEN CHOOSE i \in DOMAIN dims : dims[i] = 0 ELSE 0
NormSq(p, skip) == Total([i \in DOMAIN p |-> IF i = skip THEN 0 ELSE Sqr(p[i])], 1)

(* A surface is described by the signs of functions of the point: the      *)
(* region is where all of them are negative.                               *)
Walls(s, dims, p) ==
  LET t == TimeAxis(dims)
      R == 10 * s.r
      hole == s.h * s.r
      at == IF t = 0 THEN 0 ELSE AbsV(p[t])
      out(b) == IF b < 0 THEN 1 ELSE NormSq(p, t) - b * b   \* |x| - b
      inn(b) == IF b < 0 THEN -1 ELSE b * b - NormSq(p, t)
      ball == <<NormSq(p, 0) - R * R>>
              \o (IF s.h = 0 THEN <<>> ELSE <<hole * hole - NormSq(p, 0)>>)
  IN CASE s.name \in {"cube", "cuboid"} ->
            [i \in DOMAIN p |-> 2 * AbsV(p[i]) - 10 * s.edges[dims[i] + 1]]
       [] s.name = "ball" \/ t = 0 -> ball
       [] s.name = "cylinder" ->
            <<2 * at - 10 * s.dur, out(R)>>
            \o (IF s.h = 0 THEN <<>> ELSE <<inn(hole)>>)
       [] s.name = "bicone" ->
            <<out(R - at)>> \o (IF s.h = 0 THEN <<>> ELSE <<inn(hole - at)>>)

Max0(w) == MaxOf({w[i] : i \in DOMAIN w})
Where(s, dims, p) == LET m == Max0(Walls(s, dims, p))
                     IN IF m < 0 THEN "in" ELSE IF m = 0 THEN "on" ELSE "out"
(* close to the boundary, but not on it: curved surfaces are drawn as       *)
(* polygons                                                                *)
NearWall(s, dims, p) ==
  LET m == AbsV(Max0(Walls(s, dims, p))) IN m > 0 /\ m <= 10 * s.r
=============================================================================
