---------------------------- MODULE ShapeTrace -----------------------------
(***************************************************************************)
(* Validation of recorded CoordinateShape objects and sprinkles.           *)
(* Cases with op "shape": constructor call and everything the object tells *)
(* (lengths in half units). Cases with op "sprinkle": the points sprinkled *)
(* into a shape, relative to it.                                           *)
(***************************************************************************)
EXTENDS Uniform, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE ci

ShapeClauses(c) ==
  IF ~Valid(c.a) THEN (IF c.err = "ValueError" THEN {} ELSE {"not rejected"})
  ELSE IF c.err # "" THEN {"error"}
  ELSE
    LET s == TLCEval(Shape(c.a))
        r == c.res
        v == Volume(s)
        D == 1..s.d
        two(x) == 2 * x
    IN (IF r.dim # s.d THEN {"Dim"} ELSE {})
       \cup (IF r.name # s.name THEN {"Name"} ELSE {})
       \cup (IF r.c # [i \in D |-> 2 * s.c[i]] THEN {"Center"} ELSE {})
       \cup (IF s.name \in Round /\ (r.radius # 2 * s.r \/ r.hollow # s.h)
             THEN {"Parameter"} ELSE {})
       \cup (IF s.name = "cylinder" /\ r.duration # 2 * s.dur
             THEN {"Parameter"} ELSE {})
       \cup (IF s.name = "cube" /\ r.edge # 2 * s.edges[1]
             THEN {"Parameter"} ELSE {})
       \cup (IF s.name = "cuboid" /\ r.edges # [i \in D |-> 2 * s.edges[i]]
             THEN {"Parameter"} ELSE {})
       \cup (IF \E i \in D : r.limits[i] # Limits2(s, i) THEN {"Limits"}
             ELSE {})
       \cup (IF r.outside # <<"ValueError", "ValueError">>
             THEN {"Limits out of range"} ELSE {})
       \cup (IF \E k \in DOMAIN c.dims :
                  r.maxedge[k] # MaxEdge(s, Elems(c.dims[k]))
             THEN {"MaxEdgeHalf"} ELSE {})
       \* the driver divides by pi^k and multiplies with den, see c.vol
       \cup (IF \E k \in DOMAIN r.volume :
                  \/ c.vol # <<v[2], v[3]>>
                  \/ r.volume[k][2] > 3000
                  \/ AbsV(r.volume[k][1] - v[1]) > v[1] \div 100000
             THEN {"Volume"} ELSE {})

\* Every coordinate and every diagonal has many points on either side of the
\* centre (see UniformTrace for the exact distribution).
Spans(s, P) ==
  \A x \in Parts(s) : x.t \in {"half", "quadrants"} =>
    LET k == Count(Len(P), LAMBDA i : InPart(s, x, P[i]))
    IN 5 * k + 40 >= Len(P) /\ 5 * k <= 4 * Len(P) + 40

\* sprinkled points; c.n requested, c.many: the region is spanned
SprinkleClauses(c) ==
  IF c.n < 0
  THEN (IF c.err # "ValueError" THEN {"not rejected"} ELSE {})
       \cup (IF c.card # c.before \/ ~c.kept THEN {"changed by rejected call"}
             ELSE {})
  ELSE IF c.err # "" THEN {"error"}
  ELSE
    LET s == TLCEval(Shape(c.a))
        P == c.pts
    IN (IF c.op = "sprinkle" /\ Len(P) # c.n THEN {"number of events"} ELSE {})
       \cup (IF c.card # c.before + Len(P) \/ ~c.kept THEN {"members"} ELSE {})
       \cup (IF ~c.labels THEN {"labels"} ELSE {})
       \cup (IF \E i \in DOMAIN P : Len(P[i]) # s.d THEN {"dimension"}
             ELSE IF \E i \in DOMAIN P : ~InRegion(s, P[i])
             THEN {"outside of the region"}
             ELSE IF c.many /\ ~Spans(s, P) THEN {"lower-dimensional part"}
             ELSE {})
       \cup (IF Cardinality(Elems(P)) < Len(P) - c.slack
             THEN {"repeated events"} ELSE {})
       \cup (IF ~c.equal THEN {"equal generators"} ELSE {})
       \cup (IF ~c.differ THEN {"generator not used"} ELSE {})

Clauses(c) == IF c.op = "shape" THEN ShapeClauses(c) ELSE SprinkleClauses(c)

Init == ci = 1
Next ==
  /\ ci <= Len(Cases)
  /\ LET c == Cases[ci]
         b == TLCEval(Clauses(c))
     IN b # {} => PrintT("BAD " \o ToJson([id |-> c.id, c |-> b]))
  /\ (ci = Len(Cases)) => PrintT("DONE " \o ToString(ci))
  /\ ci' = ci + 1
Spec == Init /\ [][Next]_ci
=============================================================================
