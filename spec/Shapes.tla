------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* Coordinate shapes: validity of the parameters, defaults, extents,       *)
(* volume, and which points belong to the region.                          *)
(*                                                                         *)
(* A shape request a is a record with name, d (dimension), has (the set -  *)
(* a sequence - of the given parameters) and, if given, integers c         *)
(* (centre), r, dur, edge, edges in a length unit of the driver and h, the *)
(* hollow fraction in tenths. The default lengths are 1 unit.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Elems(s) == {s[i] : i \in DOMAIN s}
Sqr(x) == x * x
AbsV(x) == IF x < 0 THEN -x ELSE x
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE Power(_, _)
Power(b, n) == IF n = 0 THEN 1 ELSE b * Power(b, n - 1)
RECURSIVE Total(_, _)
Total(s, k) == IF k > Len(s) THEN 0 ELSE s[k] + Total(s, k + 1)
RECURSIVE Product(_, _)
Product(s, k) == IF k > Len(s) THEN 1 ELSE s[k] * Product(s, k + 1)

Round == {"ball", "bicone", "diamond", "cylinder"}
Names == Round \cup {"cube", "cuboid"}
Given(a, key) == key \in Elems(a.has)

\* parameters are checked only if the shape has them
Valid(a) ==
  /\ a.d >= 1
  /\ a.name \in Names
  /\ Given(a, "center") => Len(a.c) = a.d
  /\ a.name \in Round =>
       /\ Given(a, "radius") => a.r > 0
       /\ Given(a, "hollow") => a.h >= 0 /\ a.h < 10
  /\ a.name = "cylinder" /\ Given(a, "duration") => a.dur > 0
  /\ a.name = "cube" /\ Given(a, "edge") => a.edge > 0
  /\ a.name = "cuboid" /\ Given(a, "edges") =>
       /\ Len(a.edges) = a.d
       /\ \A i \in DOMAIN a.edges : a.edges[i] > 0

\* the shape itself, with all parameters
Shape(a) ==
  LET r == IF Given(a, "radius") THEN a.r ELSE 1
      cyl == a.name = "cylinder"
  IN [name |-> IF a.name = "diamond" THEN "bicone" ELSE a.name,
      d |-> a.d,
      c |-> IF Given(a, "center") THEN a.c ELSE [i \in 1..a.d |-> 0],
      r |-> r,
      h |-> IF Given(a, "hollow") THEN a.h ELSE 0,
      dur |-> IF Given(a, "duration") THEN a.dur ELSE 2 * r,
      edges |-> IF a.name = "cube"
                THEN [i \in 1..a.d |-> IF Given(a, "edge") THEN a.edge ELSE 1]
                ELSE IF a.name = "cuboid" /\ Given(a, "edges") THEN a.edges
                ELSE [i \in 1..a.d |-> 1]]

(****************************** extents ************************************)
\* twice the half extent along coordinate i (1 is the time)
Extent(s, i) == CASE s.name \in {"cube", "cuboid"} -> s.edges[i]
                  [] s.name = "cylinder" /\ i = 1 -> s.dur
                  [] OTHER -> 2 * s.r
\* twice the limits
Limits2(s, i) == <<2 * s.c[i] - Extent(s, i), 2 * s.c[i] + Extent(s, i)>>
MaxEdge(s, dims) == MaxOf({Extent(s, i) : i \in dims})

(****************************** volume *************************************)
\* volume of the unit ball: <<numerator, denominator, power of pi>>
BallVol(d) == CASE d = 0 -> <<1, 1, 0>> [] d = 1 -> <<2, 1, 0>>
                [] d = 2 -> <<1, 1, 1>> [] d = 3 -> <<4, 3, 1>>
                [] d = 4 -> <<1, 2, 2>> [] d = 5 -> <<8, 15, 2>>
                [] d = 6 -> <<1, 6, 3>>
\* outer minus hollow body of scaling dimension e, times 10^e if hollow
Shell(s, e) == IF s.h = 0 THEN Power(s.r, e)
               ELSE Power(s.r, e) * (Power(10, e) - Power(s.h, e))
ShellDen(s, e) == IF s.h = 0 THEN 1 ELSE Power(10, e)
\* <<numerator, denominator, power of pi>> of the volume. The hollow cylinder
\* is a pipe: its interior is taken out of the space directions only.
Volume(s) ==
  CASE s.name = "ball" ->
         LET b == BallVol(s.d)
         IN <<b[1] * Shell(s, s.d), b[2] * ShellDen(s, s.d), b[3]>>
    [] s.name = "cylinder" ->
         LET b == BallVol(s.d - 1)
         IN <<b[1] * Shell(s, s.d - 1) * s.dur, b[2] * ShellDen(s, s.d - 1),
              b[3]>>
    [] s.name = "bicone" ->
         LET b == BallVol(s.d - 1)
         IN <<2 * b[1] * Shell(s, s.d), b[2] * s.d * ShellDen(s, s.d), b[3]>>
    [] OTHER -> <<Product(s.edges, 1), 1, 0>>

(****************************** region *************************************)
\* A point is given relative to the centre, every coordinate divided by its
\* half extent, as integers in units of 1/Q; positions are known up to Tol.
Q == 10000
Tol == 3
Norm2(p, from) == Total([i \in DOMAIN p |-> IF i < from THEN 0 ELSE Sqr(p[i])],
                        1)
\* |p| (from coordinate `from' on) is at most b, at least b, up to Tol
NormLe(p, from, b) == b + Tol >= 0 /\ Norm2(p, from) <= Sqr(b + Tol)
NormGe(p, from, b) == b - Tol <= 0 \/ Norm2(p, from) >= Sqr(b - Tol)
InRegion(s, p) ==
  LET hole == s.h * (Q \div 10)
  IN /\ \A i \in DOMAIN p : AbsV(p[i]) <= Q + Tol
     /\ CASE s.name = "ball" -> NormLe(p, 1, Q) /\ NormGe(p, 1, hole)
          [] s.name = "cylinder" ->
               s.d > 1 => NormLe(p, 2, Q) /\ NormGe(p, 2, hole)
          [] s.name = "bicone" -> /\ NormLe(p, 2, Q - AbsV(p[1]))
                                  /\ NormGe(p, 2, hole - AbsV(p[1]))
          [] OTHER -> TRUE
=============================================================================
