------------------------------ MODULE Printed ------------------------------
(***************************************************************************)
(* The printed forms of events, causets, spacetimes and shapes. Numbers    *)
(* are texts here. A label is [k, v]: k = "none", "int", "str" or "float". *)
(* An event prints as its label; its full form names its class, the events *)
(* it is linked to in the past, the label and the coordinates - each of    *)
(* them if and only if it has them. Sets may be printed in any order.      *)
(*                                                                         *)
(* A history creates events (with the events that are named as past, and   *)
(* all events before these), then links, unlinks, relabels, disjoins and   *)
(* prints them. The state st holds sequences past (sets), lab, crd, cls.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Elem(s) == {s[i] : i \in DOMAIN s}
Labelled(l) == l.k # "none" /\ ~(l.k = "str" /\ l.v = "")
\* the label as it is printed: numbers that are no integers are quoted
Quoted(l) == IF l.k = "int" THEN l.v ELSE "'" \o l.v \o "'"
Short(l) == IF Labelled(l) THEN "#" \o Quoted(l) ELSE "#Event"

RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN ""
           ELSE IF Len(s) = 1 THEN s[1]
           ELSE s[1] \o ", " \o Join(Tail(s))
Orders(S) == {f \in [1..Cardinality(S) -> S] :
                \A i, j \in 1..Cardinality(S) : f[i] = f[j] => i = j}

(* Events                                                                  *)
Closure(past, named) == named \cup UNION {past[i] : i \in named}
LinkPast(st, e) ==
  {p \in st.past[e] : ~\E x \in st.past[e] : p \in st.past[x]}
Crd(c) == "coordinates=[" \o Join(c) \o "]"
Parts(st, e, order) ==
  (IF order = <<>> THEN <<>>
   ELSE <<"past={" \o Join([i \in DOMAIN order |-> Short(st.lab[order[i]])])
          \o "}">>)
  \o (IF Labelled(st.lab[e]) THEN <<"label=" \o Quoted(st.lab[e])>> ELSE <<>>)
  \o (IF st.crd[e].has THEN <<Crd(st.crd[e].c)>> ELSE <<>>)
Full(st, e) ==
  {st.cls[e] \o "(" \o Join(Parts(st, e, o)) \o ")" :
     o \in Orders(LinkPast(st, e))}
\* a causet prints the full forms of its members, given as texts
SetForm(texts) == IF texts = <<>> THEN {"set()"}
  ELSE {"{" \o Join([i \in DOMAIN texts |-> texts[o[i]]]) \o "}" :
          o \in Orders(DOMAIN texts)}

NewEvent(st, r) ==
  [past |-> Append(st.past, Closure(st.past, Elem(r.past))),
   lab |-> Append(st.lab, r.lab), crd |-> Append(st.crd, r.crd),
   cls |-> Append(st.cls, r.cls)]
Empty == [past |-> <<>>, lab |-> <<>>, crd |-> <<>>, cls |-> <<>>]
Step(st, s) ==
  CASE s.op = "new" -> NewEvent(st, s)
    [] s.op = "label" -> [st EXCEPT !.lab[s.e] = s.lab]
    [] s.op = "disjoin" ->
         [st EXCEPT !.past = [i \in DOMAIN st.past |->
                                IF i = s.e THEN {} ELSE st.past[i] \ {s.e}]]
    [] OTHER -> st  \* link, unlink, print, causet

(* Spacetimes: the name, and the full form with class and parameters        *)
SpacetimeName(k) == CASE k = "flat" -> "flat" [] k = "dS" -> "de Sitter"
  [] k = "AdS" -> "Anti-de Sitter" [] OTHER -> "black hole"
SpacetimeShort(q) ==
  q.d \o "-dimensional " \o SpacetimeName(q.k) \o " spacetime"
SpacetimeClass(k) == CASE k = "flat" -> "FlatSpacetime"
  [] k = "dS" -> "deSitterSpacetime" [] k = "AdS" -> "AntideSitterSpacetime"
  [] OTHER -> "BlackHoleSpacetime"
\* names of parameters with their numbers (in thousandths), in any order;
\* a single period holds for all n spatial directions
SpacetimeParams(q) ==
  CASE q.k = "flat" ->
         {<<"period", IF q.form = "float" /\ q.v[1] > 0
                      THEN [i \in 1..q.n |-> q.v[1]] ELSE q.v>>}
    [] q.k = "dS" -> {<<"r_dS", q.v>>} [] q.k = "AdS" -> {<<"r_AdS", q.v>>}
    [] OTHER -> {<<"r_S", q.v>>}
SpacetimeWords(q) ==
  CASE q.k = "EF" -> {"Eddington-Finkelstein"}
    [] q.k = "S" -> {"Schwarzschild"} [] OTHER -> {}

(* Shapes                                                                  *)
ShapeName(n) == IF n = "diamond" THEN "bicone" ELSE n
Round(n) == n \in {"ball", "bicone", "diamond", "cylinder"}
ShapeShort(q) ==
  (IF Round(q.name) /\ q.hollow > 0 THEN "hollow " ELSE "")
  \o q.d \o "-" \o ShapeName(q.name)
ShapeParams(q) ==
  {<<"center", q.center>>} \cup
  (IF Round(q.name) THEN {<<"radius", <<q.radius>>>>, <<"hollow", <<q.hollow>>>>}
   ELSE {}) \cup
  (IF q.name = "cylinder" THEN {<<"duration", <<q.duration>>>>} ELSE {}) \cup
  (IF q.name = "cube" THEN {<<"edge", <<q.edge>>>>} ELSE {}) \cup
  (IF q.name = "cuboid" THEN {<<"edges", q.edges>>} ELSE {})
=============================================================================
