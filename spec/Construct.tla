----------------------------- MODULE Construct ------------------------------
(***************************************************************************)
(* Construction of an EmbeddedCauset from any combination of spacetime,    *)
(* shape, coordinates and dimension: which requests are consistent and     *)
(* what the object has to consist of.                                      *)
(*                                                                         *)
(* A request q has                                                         *)
(*  st   [k |-> "none"], [k |-> "name", name], [k |-> "obj", name, d]      *)
(*  sh   likewise                                                          *)
(*  crd  [k, rows]: k is how the coordinates are passed (none, list,       *)
(*       arrays, tuple, array, flat array, cube array), rows the lengths   *)
(*       of the rows, d the number of columns of an array                  *)
(*  dim  dimension, <= 0 if left out                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

SpacetimeOf(name) ==
  CASE name \in {"flat", "Minkowski", "periodic"} -> "flat"
    [] name \in {"dS", "de Sitter"} -> "de Sitter"
    [] name \in {"AdS", "Anti-de Sitter"} -> "Anti-de Sitter"
    [] name \in {"black hole", "Schwarzschild"} -> "black hole"
    [] OTHER -> "?"
SpacetimeExists(name, d) ==
  CASE SpacetimeOf(name) = "flat" -> d >= 1
    [] SpacetimeOf(name) \in {"de Sitter", "Anti-de Sitter"} -> d >= 2
    [] SpacetimeOf(name) = "black hole" -> d = 2
    [] OTHER -> FALSE
ShapeOf(name) == CASE name = "diamond" -> "bicone"
                   [] name \in {"ball", "bicone", "cylinder", "cube", "cuboid"}
                        -> name
                   [] OTHER -> "?"
DefaultShapeOf(name) == CASE name = "periodic" -> "cube"
                          [] SpacetimeOf(name) = "flat" -> "bicone"
                          [] OTHER -> "cylinder"

\* dimensions that are told explicitly
Told(q) ==
  (IF q.dim > 0 THEN {q.dim} ELSE {})
  \cup (IF q.st.k = "obj" THEN {q.st.d} ELSE {})
  \cup (IF q.sh.k = "obj" THEN {q.sh.d} ELSE {})
  \cup (IF q.crd.k = "array" THEN {q.crd.d} ELSE {})
  \cup {q.crd.rows[i] : i \in DOMAIN q.crd.rows}
WellFormed(q) == q.crd.k \notin {"flat array", "cube array"}
Dimension(q) == IF Told(q) = {} THEN 2 ELSE CHOOSE d \in Told(q) : TRUE
StName(q) == IF q.st.k = "none" THEN "flat" ELSE q.st.name
ShName(q) == IF q.sh.k = "none" THEN DefaultShapeOf(StName(q))
             ELSE ShapeOf(q.sh.name)
Consistent(q) ==
  /\ WellFormed(q)
  /\ Cardinality(Told(q)) <= 1
  /\ SpacetimeExists(StName(q), Dimension(q))
  /\ ShName(q) # "?"
Expected(q) == [d |-> Dimension(q), st |-> SpacetimeOf(StName(q)),
                sh |-> ShName(q), n |-> Len(q.crd.rows)]
=============================================================================
