-------------------------- MODULE SpacetimeObjects --------------------------
(***************************************************************************)
(* Spacetime objects: which requests are accepted and what the object then *)
(* tells about itself. A request is a record                               *)
(*   cls   "flat", "dS", "AdS" or "black hole"                             *)
(*   d     dimension                                                       *)
(*   k     how the parameter is passed: "none", "float", "int", "tuple",   *)
(*         "list", "array"                                                 *)
(*   v     its values in quarters (one for a number)                       *)
(*   m     metric ("" if left out), only for black holes                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Metrics == {"Eddington-Finkelstein", "Schwarzschild"}
ValidDim(q) == CASE q.cls = "flat" -> q.d >= 1
                 [] q.cls \in {"dS", "AdS"} -> q.d >= 2
                 [] q.cls = "black hole" -> q.d = 2
ValidParameter(q) ==
  IF q.cls = "flat"
  THEN \/ q.k \in {"none", "float"}
       \/ q.k = "tuple" /\ Len(q.v) = q.d - 1
  ELSE q.k = "none" \/ (q.k \in {"float", "int"} /\ q.v[1] > 0)
Valid(q) == /\ ValidDim(q) /\ ValidParameter(q)
            /\ q.cls = "black hole" => q.m \in Metrics \cup {""}

Periodic(q) == /\ q.cls = "flat" /\ q.k # "none"
               /\ \E i \in DOMAIN q.v : q.v[i] > 0
\* in quarters
Default(q) == CASE q.cls = "dS" -> <<4>> [] q.cls = "AdS" -> <<2>>
                [] q.cls = "black hole" -> <<2>> [] OTHER -> <<>>
Values(q) ==
  IF q.cls = "flat"
  THEN IF ~Periodic(q) THEN <<>>
       ELSE IF q.k = "float" THEN [i \in 1..(q.d - 1) |-> q.v[1]] ELSE q.v
  ELSE IF q.k = "none" THEN Default(q) ELSE q.v
Title(q) == CASE q.cls = "flat" -> "flat" [] q.cls = "dS" -> "de Sitter"
              [] q.cls = "AdS" -> "Anti-de Sitter"
              [] OTHER -> "black hole"
Metric(q) == CASE q.cls = "flat" -> "Minkowski"
               [] q.cls \in {"dS", "AdS"} -> "static"
               [] OTHER -> IF q.m = "" THEN "Eddington-Finkelstein" ELSE q.m
Region(q) == IF q.cls # "flat" THEN "cylinder"
             ELSE IF Periodic(q) THEN "cube" ELSE "bicone"
Expected(q) ==
  [d |-> q.d, name |-> Title(q), metric |-> Metric(q), v |-> Values(q),
   periodic |-> Periodic(q), shape |-> Region(q),
   str |-> ToString(q.d) \o "-dimensional " \o Title(q) \o " spacetime"]
=============================================================================
