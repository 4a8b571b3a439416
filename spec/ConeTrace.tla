----------------------------- MODULE ConeTrace ------------------------------
(***************************************************************************)
(* Validation of recorded light cones. A case holds a plot of the events   *)
(* ev of the spacetime m with the axes dims, and for each side (past,      *)
(* future) that is switched on the time slice and the drawn cones. For     *)
(* each cone and each event e the record tells which of the points pts[e]  *)
(* the cone covers: 0 no, 1 yes, 2 undecided (very close to the edge).     *)
(* The cones may come in any order. alpha is the opacity of a cone in      *)
(* millionth (-1: not recorded), amax the requested one in thousandth, and *)
(* spur counts edges that are no boundary. In 3D the opacities of all      *)
(* surfaces are in alphas, in any order.                                   *)
(***************************************************************************)
EXTENDS Cones, Json, IOUtils
P == INSTANCE Plots
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE ci

Time(m, o) == IF Hole(m) THEN <<o[1], o[2]>> ELSE <<o[1]>>
Dist(q, side, e) == side.sign * (side.ts[1] - q.ev[e][1])
\* cones that may be visible (linear fading ends at the time depth)
May(q, side) ==
  {e \in DOMAIN q.ev : /\ HasCone(q.m, q.ev[e], side.sign, side.ts)
                       /\ q.fade = "linear" => Dist(q, side, e) <= q.depth}
Must(q, side) ==
  {e \in May(q, side) : q.fade = "linear" => Dist(q, side, e) < q.depth}

Opaque(q, side, alpha, e) ==
  \/ alpha = -1
  \/ IF q.fade = "" THEN AbsI(alpha - side.amax * 1000) <= 5
     ELSE P!FadeOK([q EXCEPT !.amax = side.amax], Dist(q, side, e), alpha)

Fits(q, side, h, e) ==
  /\ \A i \in DOMAIN q.pts[e] :
       \/ h.codes[e][i] = 2
       \/ ~Shows(q.m, q.dims, q.ev[e], side.ts, q.pts[e][i])
       \/ h.codes[e][i] =
            IF InCone(q.m, q.ev[e], side.sign, side.ts, q.pts[e][i]) THEN 1
            ELSE 0
  /\ Opaque(q, side, h.alpha, e)

SideClauses(q, side) ==
  LET E == May(q, side)
      H == DOMAIN side.cones
      F == TLCEval({<<h, e>> \in H \X E : Fits(q, side, side.cones[h], e)})
  IN (IF \/ Len(side.cones) > Cardinality(E)
         \/ Len(side.cones) < Cardinality(Must(q, side))
      THEN {"number of cones"} ELSE {})
     \cup (IF \/ \E h \in H : ~\E e \in E : <<h, e>> \in F
              \/ \E e \in Must(q, side) : ~\E h \in H : <<h, e>> \in F
           THEN {"cone"} ELSE {})
     \cup (IF \E h \in H : side.cones[h].spur # 0 THEN {"edge"} ELSE {})

Clauses(c) ==
  IF c.err # "" THEN {"error " \o c.err}
  ELSE UNION {{(IF c.sides[i].sign = 1 THEN "future " ELSE "past ") \o x :
                 x \in SideClauses(c.q, c.sides[i])} : i \in DOMAIN c.sides}
       \cup (IF \/ \E k \in DOMAIN c.alphas : ~\E i \in DOMAIN c.sides :
                      \E e \in May(c.q, c.sides[i]) :
                        Opaque(c.q, c.sides[i], c.alphas[k], e)
                \/ c.alphas # <<>> /\ \E i \in DOMAIN c.sides :
                      \E e \in Must(c.q, c.sides[i]) :
                        ~\E k \in DOMAIN c.alphas :
                           Opaque(c.q, c.sides[i], c.alphas[k], e)
             THEN {"opacity"} ELSE {})
       \cup (IF c.extra # 0 THEN {"extra"} ELSE {})
       \cup (IF ~c.kept THEN {"arguments"} ELSE {})

Init == ci = 1
Next ==
  /\ ci <= Len(Cases)
  /\ LET c == Cases[ci]
         b == TLCEval(Clauses(c))
     IN b # {} => PrintT("BAD " \o ToJson([id |-> c.id, c |-> b]))
  /\ (ci = Len(Cases)) => PrintT("DONE " \o ToString(ci))
  /\ ci' = ci + 1
Spec == Init /\ [][Next]_ci
=============================================================================
