------------------------ MODULE GenSpacetimeObjects -------------------------
(* All requests over small sets of arguments, one initial state each.      *)
EXTENDS SpacetimeObjects, Json
CONSTANTS D, Emit
VARIABLE q
V == {-4, -1, 0, 1, 2, 4, 13}
Tuples == {<<>>} \cup {<<a>> : a \in {-2, 0, 3}}
          \cup {<<a, b>> : a, b \in {-8, -3, -2, 0, 3, 8}}
          \cup {<<a, b, c>> : a, b, c \in {-8, 0, 3, 8}}
Flat == [cls : {"flat"}, d : (-1)..D, m : {""}, k : {"none"}, v : {<<>>}]
        \cup [cls : {"flat"}, d : (-1)..D, m : {""}, k : {"float", "int"},
              v : {<<x>> : x \in V}]
        \cup [cls : {"flat"}, d : (-1)..D, m : {""},
              k : {"tuple", "list", "array"}, v : Tuples]
Curved == [cls : {"dS", "AdS"}, d : (-1)..D, m : {""}, k : {"none"},
           v : {<<>>}]
          \cup [cls : {"dS", "AdS"}, d : (-1)..D, m : {""},
                k : {"float", "int"}, v : {<<x>> : x \in V}]
Hole == [cls : {"black hole"}, d : (-1)..D,
         m : Metrics \cup {"", "Kruskal", "schwarzschild"}, k : {"none"},
         v : {<<>>}]
        \cup [cls : {"black hole"}, d : (-1)..D,
              m : Metrics \cup {"", "Kruskal", "schwarzschild"},
              k : {"float", "int"}, v : {<<x>> : x \in V}]
\* an integer is a whole number
Whole(r) == r.k = "int" => r.v[1] % 4 = 0
Init == q \in {r \in Flat \cup Curved \cup Hole : Whole(r)}
Next == FALSE /\ q' = q
Spec == Init /\ [][Next]_q
Emitted == Emit => PrintT("REQ " \o ToJson(q))
\* what is told fits together
Fits == Valid(q) => /\ Expected(q).d >= 1
                    /\ Expected(q).periodic => Len(Expected(q).v) = q.d - 1
                    /\ ~Expected(q).periodic =>
                         Len(Expected(q).v) = IF q.cls = "flat" THEN 0 ELSE 1
=============================================================================
