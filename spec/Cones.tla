------------------------------- MODULE Cones --------------------------------
(***************************************************************************)
(* Which points a drawn light cone has to cover. The cone of the event o   *)
(* with sign 1 (future) or -1 (past) is cut at the time ts. Points are     *)
(* lattice points of Spacetimes, times are <<k>> or <<a, b>> for black     *)
(* holes. The axes of the plot show the coordinates dims (from 0).         *)
(***************************************************************************)
EXTENDS Spacetimes

Hole(m) == m.k \in {"EF", "S"}
\* sign of the time of x minus ts
TimeSgn(m, x, ts) == IF Hole(m) THEN SgnL(x[1] - ts[1], x[2] - ts[2])
                     ELSE SgnI(x[1] - ts[1])

(* A cone is drawn if the slice is on its side of the event (and the event *)
(* is not beyond the cosmological horizon).                                *)
HasCone(m, o, sign, ts) ==
  /\ sign * TimeSgn(m, o, ts) < 0
  /\ m.k = "dS" => InHorizon(m, o)

(* Inside of the Schwarzschild horizon the time coordinate is spacelike:   *)
(* the future cone is not cut there.                                       *)
InCone(m, o, sign, ts, x) ==
  /\ IF sign = 1 THEN Before(m, o, x) ELSE Before(m, x, o)
  /\ \/ sign * TimeSgn(m, x, ts) <= 0
     \/ m.k = "S" /\ sign = 1 /\ Inside(o)

(* The points of the cut through o that is shown: coordinates that are not *)
(* on an axis are those of o, and the time is ts if there is no time axis. *)
(* Periodic directions are shown with one period on both sides. In de      *)
(* Sitter spacetime the other coordinates are zero as the outline of the   *)
(* cone is drawn instead of the cut.                                       *)
Axis(dims) == {dims[i] : i \in DOMAIN dims}
Shows(m, dims, o, ts, x) ==
  IF Hole(m) THEN TRUE
  ELSE /\ IF 0 \in Axis(dims) THEN TRUE ELSE x[1] = ts[1]
       /\ \A i \in 2..m.d : IF i - 1 \in Axis(dims) THEN TRUE ELSE x[i] = o[i]
       /\ m.k = "flat" => \A i \in 2..m.d :
             m.per[i - 1] > 0 => AbsI(x[i] - o[i]) <= m.per[i - 1]
       /\ m.k = "dS" => \A i \in 2..m.d : i - 1 \in Axis(dims) \/ x[i] = 0
=============================================================================
