---------------------------- MODULE GenConstruct ----------------------------
(***************************************************************************)
(* All construction requests over small sets of arguments, one initial     *)
(* state each, printed for the replay on the real code.                    *)
(***************************************************************************)
EXTENDS Construct, Json
CONSTANTS D,       \* largest dimension
          Emit
VARIABLE q
None == [k |-> "none"]
Nm(names) == {[k |-> "name", name |-> x] : x \in names}
Sts == {None}
       \cup Nm({"flat", "Minkowski", "dS", "de Sitter", "AdS",
                "Anti-de Sitter", "black hole", "Schwarzschild", "Mars"})
       \cup {x \in [k : {"obj"}, name : {"flat", "periodic", "dS", "AdS",
                                         "black hole"}, d : 1..D] :
               SpacetimeExists(x.name, x.d) /\ (x.name = "periodic" => x.d > 1)}
Shs == {None} \cup Nm({"diamond", "bicone", "ball", "cylinder", "cube",
                       "cuboid", "sphere"})
       \cup [k : {"obj"}, name : {"diamond", "cylinder", "cuboid"}, d : 1..D]
Rows == {<<>>} \cup {<<d>> : d \in 1..D} \cup {<<d, d>> : d \in 1..D}
        \cup {<<2, 3>>, <<3, 2>>, <<2, 2, 1>>, <<1, 2>>}
Equal(r) == \A i \in DOMAIN r : r[i] = r[1]
Crds == [k : {"none"}, rows : {<<>>}, d : {0}]
        \cup [k : {"list", "arrays", "tuple"}, rows : Rows, d : {0}]
        \cup {x \in [k : {"array"}, rows : {r \in Rows : Equal(r)}, d : 1..D] :
                x.rows = <<>> \/ x.rows[1] = x.d}
        \cup [k : {"flat array", "cube array"}, rows : {<<>>}, d : {0}]
Init == q \in [st : Sts, sh : Shs, crd : Crds, dim : (-1)..D]
Next == FALSE /\ q' = q
Spec == Init /\ [][Next]_q
\* the request is printed once, as its invariant is evaluated
Emitted == Emit => PrintT("REQ " \o ToJson(q))
\* an accepted request has one dimension everywhere
OneDim == Consistent(q) =>
  /\ \A d \in Told(q) : d = Expected(q).d
  /\ Expected(q).st # "?" /\ Expected(q).sh # "?"
\* leaving out what is told elsewhere does not change the result
Redundant == (Consistent(q) /\ q.dim > 0 /\ Told([q EXCEPT !.dim = -1]) # {})
             => /\ Consistent([q EXCEPT !.dim = -1])
                /\ Expected([q EXCEPT !.dim = -1]) = Expected(q)
=============================================================================
