------------------------------- MODULE Plots --------------------------------
(***************************************************************************)
(* What a plot of events has to show. A request q holds                    *)
(*   crd    integer coordinates of all events (or positions in a diagram)  *)
(*   past   the past of every event as sequences of event numbers          *)
(*   causal TRUE if the past is that of flat spacetime at crd instead      *)
(*   shown  the events that are plotted, in this order                     *)
(*   lab    labels as strings                                              *)
(*   dims   the coordinates along the axes (from 0)                        *)
(*   events, links, labels   what is switched on                           *)
(*   dyn    dynamic mode with depth (# 0) and fade, maximal opacity amax   *)
(*          in per mille; u is the unit of length as a fraction            *)
(* All drawn coordinates are scaled by K.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

K == 1000
AbsP(x) == IF x < 0 THEN -x ELSE x
Elem(s) == {s[i] : i \in DOMAIN s}
RECURSIVE SumSq(_, _, _)
SumSq(x, y, i) == IF i > Len(x) THEN 0
                  ELSE (x[i] - y[i]) * (x[i] - y[i]) + SumSq(x, y, i + 1)

Past(q, e) ==
  IF q.causal
  THEN {p \in DOMAIN q.crd : q.crd[p][1] < q.crd[e][1]
          /\ SumSq(q.crd[p], q.crd[e], 2) <=
               (q.crd[p][1] - q.crd[e][1]) * (q.crd[p][1] - q.crd[e][1])}
  ELSE Elem(q.past[e])
\* a is linked to the future event b
Link(P, a, b) == a \in P[b] /\ \A c \in P[b] : a \notin P[c]

Point(q, e) == [i \in DOMAIN q.dims |-> K * q.crd[e][q.dims[i] + 1]]

(* ------------------------------- dynamic mode ----------------------------- *)
\* time distance in the direction of the time depth
Dist(q, t, e) == IF q.depth > 0 THEN q.crd[e][1] - t ELSE t - q.crd[e][1]
Depth(q) == AbsP(q.depth)
Shown(q, t, e) == /\ Dist(q, t, e) >= 0
                  /\ q.fade = "linear" => Dist(q, t, e) < Depth(q)
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
\* alpha is the opacity in millionth at the distance v of the time slice
FadeOK(q, v, alpha) ==
  LET d == Depth(q)
  IN CASE q.fade = "linear" ->
            AbsP(alpha * d - q.amax * 1000 * (d - v)) <= 5 * d
       [] q.fade = "intensity" ->
            LET n == Pow(v * q.u[1] + q.u[2], Len(q.dims) - 1)
                m == Pow(q.u[2], Len(q.dims) - 1)
            IN AbsP((alpha \div m) * n - q.amax * 1000) <= 5 * n
       \* half after every time depth (v is a multiple of half the depth)
       [] q.fade = "exponential" ->
            LET h == (2 * v) \div d
                a == alpha \div 100
            IN IF h % 2 = 0
               THEN AbsP(alpha * Pow(2, h \div 2) - q.amax * 1000)
                      <= 5 * Pow(2, h \div 2)
               ELSE \* alpha^2 = amax^2 2^-h, h odd
                    LET r == Pow(2, (h - 1) \div 2)
                    IN AbsP((alpha * r) - (q.amax * 707107) \div 1000) <= 5 * r
OpacityOK(q, t, e, alpha) == FadeOK(q, Dist(q, t, e), alpha)

\* where the line from a to b crosses the time slice, vb < 0 < va
Cut(q, a, b, va, vb) ==
  LET A == Point(q, a)
      Q == Point(q, b)
  IN [i \in DOMAIN A |-> A[i] + ((Q[i] - A[i]) * va) \div (va - vb)]

(* A segment is a pair of points, without direction.                       *)
Near(x, y) == \A i \in DOMAIN x : AbsP(x[i] - y[i]) <= 3
NearSeg(s, t) == \/ Near(s[1], t[1]) /\ Near(s[2], t[2])
                 \/ Near(s[1], t[2]) /\ Near(s[2], t[1])

Pairs(q) == LET P == TLCEval([e \in DOMAIN q.crd |-> Past(q, e)])
                S == q.shown
            IN {ij \in (DOMAIN S) \X (DOMAIN S) :
                  ij[1] < ij[2] /\ (Link(P, S[ij[1]], S[ij[2]])
                                    \/ Link(P, S[ij[2]], S[ij[1]]))}

\* pieces that have to be drawn, as a sequence
SeqOf(S, F(_)) ==
  LET RECURSIVE G(_)
      G(T) == IF T = {} THEN <<>>
              ELSE LET x == CHOOSE y \in T : TRUE IN <<F(x)>> \o G(T \ {x})
  IN G(S)
StaticSegments(q) ==
  SeqOf(Pairs(q), LAMBDA ij : <<Point(q, q.shown[ij[1]]),
                                Point(q, q.shown[ij[2]])>>)
Reach(q, v) == v >= 0 /\ (q.fade = "linear" => v < Depth(q))
HalfLinks(q, t) ==
  LET V(i) == Dist(q, t, q.shown[i])
  IN {ij \in Pairs(q) : \/ Reach(q, V(ij[1])) /\ V(ij[1]) > 0 /\ V(ij[2]) < 0
                        \/ Reach(q, V(ij[2])) /\ V(ij[2]) > 0 /\ V(ij[1]) < 0}
\* the shown part of a link that is cut at the time slice
HalfSeg(q, t, ij) ==
  LET V(i) == Dist(q, t, q.shown[i])
      i == IF V(ij[1]) > 0 THEN ij[1] ELSE ij[2]
      j == IF V(ij[1]) > 0 THEN ij[2] ELSE ij[1]
  IN <<Point(q, q.shown[i]), Cut(q, q.shown[i], q.shown[j], V(i), V(j))>>
DynSegments(q, t) ==
  LET V(i) == Dist(q, t, q.shown[i])
      both == {ij \in Pairs(q) : Reach(q, V(ij[1])) /\ Reach(q, V(ij[2]))}
  IN SeqOf(both, LAMBDA ij : <<Point(q, q.shown[ij[1]]), Point(q, q.shown[ij[2]])>>)
     \o SeqOf(HalfLinks(q, t), LAMBDA ij : HalfSeg(q, t, ij))
DynDots(q, t) ==
  SeqOf(HalfLinks(q, t), LAMBDA ij :
        LET s == HalfSeg(q, t, ij) IN [x |-> s[2], o |-> s[1]])
\* pieces that may be drawn or not: links that leave through the far end
MaybeDyn(q, t) ==
  LET V(i) == Dist(q, t, q.shown[i])
  IN \E ij \in Pairs(q) : q.fade = "linear"
       /\ (V(ij[1]) >= Depth(q) \/ V(ij[2]) >= Depth(q))
       /\ (V(ij[1]) < Depth(q) \/ V(ij[2]) < Depth(q))
       /\ (V(ij[1]) >= 0 \/ V(ij[2]) >= 0)

(* The same points or pieces with the same multiplicity, up to rounding.    *)
SameBag(x, y, N(_, _)) ==
  /\ Len(x) = Len(y)
  /\ \A i \in DOMAIN x :
       Cardinality({j \in DOMAIN x : N(x[i], x[j])}) =
       Cardinality({j \in DOMAIN y : N(x[i], y[j])})
SubBag(x, y, N(_, _)) ==
  \A i \in DOMAIN x :
     Cardinality({j \in DOMAIN x : N(x[i], x[j])}) <=
     Cardinality({j \in DOMAIN y : N(x[i], y[j])})
=============================================================================
