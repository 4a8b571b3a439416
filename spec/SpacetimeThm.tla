---------------------------- MODULE SpacetimeThm ----------------------------
(***************************************************************************)
(* Model checking of the causal structures in Spacetimes: on every lattice *)
(* the relation is reflexive (where the chart is defined), antisymmetric   *)
(* and transitive, and moving an event to the future keeps what precedes   *)
(* it. Every triple of points of a lattice is reached.                      *)
(***************************************************************************)
EXTENDS Spacetimes

CONSTANTS MM,      \* spacetimes
          T, X     \* half widths of the lattices

VARIABLES m, x, y, z, ph

Dim(k) == IF k = "flat" THEN {2, 3} ELSE IF k \in {"dS", "AdS"} THEN {2, 3}
          ELSE {4}
Radii == {8, 12, 15, 17, 20, 32}
Points(mm) ==
  IF mm.k \in {"EF", "S"}
  THEN {<<a, b, s, q>> : a \in {-8, 0, 5}, b \in {-16, 0}, s \in {1},
                         q \in Radii \cup (IF mm.k = "EF" THEN {16} ELSE {})}
  ELSE IF mm.d = 2 THEN {<<t, u>> : t \in (-T)..T, u \in (-X)..X}
  ELSE {<<t, u, v>> : t \in 0..T, u \in {-X, 0, 1}, v \in {0, 2}}
\* dummy points keep the coordinates of one kind together
Init == /\ m \in MM /\ x \in Points(m) /\ y = x /\ z = x /\ ph = 0
Next == \/ /\ ph = 0 /\ ph' = 1 /\ y' \in Points(m) /\ UNCHANGED <<m, x, z>>
        \/ /\ ph = 1 /\ ph' = 2 /\ z' \in Points(m) /\ UNCHANGED <<m, x, y>>
Spec == Init /\ [][Next]_<<m, x, y, z, ph>>

Chart(a) == m.k # "dS" \/ InHorizon(m, a)
Reflexive == Chart(x) => Before(m, x, x)
AntiSym == (Before(m, x, y) /\ Before(m, y, x)) => Same(m, x, y)
Transitive3 == (Before(m, x, y) /\ Before(m, y, z)) => Before(m, x, z)
\* the time coordinate decides (Eddington-Finkelstein time as well)
TimeOrder == (Before(m, x, y) /\ m.k # "S") =>
  IF m.k = "EF" THEN SgnL(y[1] - x[1], y[2] - x[2]) >= 0 ELSE x[1] <= y[1]
\* inside the horizon the radius decreases
RadiusOrder == (m.k \in {"S", "EF"} /\ Before(m, x, y) /\ Inside(x)) =>
  y[4] <= x[4]
\* nothing leaves the horizon
HorizonOrder == (m.k = "EF" /\ Before(m, x, y) /\ Horizon(x)) => y[4] <= 16
=============================================================================
