------------------------------ MODULE Uniform -------------------------------
(***************************************************************************)
(* Sprinkling as a Poisson process: the events are independent, each falls *)
(* into a part of the region with a probability that is the share of the   *)
(* part in the volume, and the number of events of an intensity is Poisson *)
(* distributed. Parts are sets of points relative to the centre (unit 1/Q, *)
(* see Shapes), shares are given in thousandths (rounded down).            *)
(*                                                                         *)
(* A part is a record [t, i, j, m]: kind, coordinates and size in tenths.  *)
(***************************************************************************)
EXTENDS Shapes

Tenth == Q \div 10
Part(t, i, j, m) == [t |-> t, i |-> i, j |-> j, m |-> m]

\* radius that scales with the part: all coordinates, or space for a cylinder
ScaleDim(s) == IF s.name = "cylinder" THEN s.d - 1 ELSE s.d
InPart(s, x, p) ==
  LET b == x.m * Tenth IN
  CASE x.t = "half" -> p[x.i] > 0
    [] x.t = "quadrants" -> (p[x.i] > 0) = (p[x.j] > 0)
    [] x.t = "larger" -> AbsV(p[x.i]) > AbsV(p[x.j])
    \* the smaller shape of the same form
    [] x.t = "core" ->
         CASE s.name = "ball" -> Norm2(p, 1) <= Sqr(b)
           [] s.name = "cylinder" -> Norm2(p, 2) <= Sqr(b)
           [] s.name = "bicone" -> /\ AbsV(p[1]) <= b
                                   /\ Norm2(p, 2) <= Sqr(b - AbsV(p[1]))
           [] OTHER -> \A k \in 1..s.d : AbsV(p[k]) <= b
    \* a slab around the centre
    [] x.t = "slab" -> AbsV(p[x.i]) <= b
    \* a slab of the smaller shape: time and space are independent
    [] x.t = "tube" -> AbsV(p[1]) <= Q \div 2 /\ Norm2(p, 2) <= Sqr(b)
    \* outside of the light cone of the centre
    [] x.t = "elsewhere" -> Norm2(p, 2) >= Sqr(p[1])

\* (a / b) in thousandths; powers of tenths
Milli(a, b) == (a * 1000) \div b
Hole(s, e) == Power(s.h, e)
Share(s, x) ==
  LET e == ScaleDim(s)
      m == x.m
  IN CASE x.t \in {"half", "quadrants", "larger"} -> 500
       [] x.t = "core" ->
            IF s.name \in Round
            THEN Milli(Power(m, e) - Hole(s, e), Power(10, e) - Hole(s, e))
            ELSE Milli(Power(m, e), Power(10, e))
       [] x.t = "slab" ->
            CASE s.name = "bicone" ->  \* all but the two tips
                   Milli(Power(10, e) - Power(10 - m, e) - Hole(s, e),
                         Power(10, e) - Hole(s, e))
              [] s.name = "ball" /\ s.d = 3 ->
                   Milli((300 * m - Power(m, 3)) - 2 * Hole(s, 3),
                         2 * (1000 - Hole(s, 3)))
              [] OTHER -> m * 100
       [] x.t = "tube" ->
            Milli(Power(m, e) - Hole(s, e), Power(10, e) - Hole(s, e)) \div 2
       [] x.t = "elsewhere" -> 1000 - 1000 \div Power(2, s.d - 1)

\* the parts of a shape whose share is known
Parts(s) ==
  LET D == 1..s.d
      box == s.name \in {"cube", "cuboid"}
      M == {m \in {4, 6, 8, 9} : box \/ m > s.h}
  IN {Part("half", i, 0, 0) : i \in D}
     \cup {Part("quadrants", ij[1], ij[2], 0) :
             ij \in {p \in D \X D : p[1] < p[2]}}
     \cup {Part("larger", ij[1], ij[2], 0) :
             ij \in {p \in D \X D : p[1] < p[2] /\
                       (box \/ s.name = "ball" \/ p[1] > 1)}}
     \cup (IF ScaleDim(s) > 0 THEN {Part("core", 0, 0, m) : m \in M} ELSE {})
     \cup (IF box THEN {Part("slab", i, 0, m) : i \in D, m \in {3, 5, 8}}
           ELSE IF s.name = "cylinder"
           THEN {Part("slab", 1, 0, m) : m \in {3, 5, 8}}
                \cup {Part("tube", 1, 0, m) : m \in IF s.d > 1 THEN M ELSE {}}
           ELSE IF s.name = "bicone"
           THEN {Part("slab", 1, 0, m) : m \in M}
                \cup (IF s.d > 1 THEN {Part("elsewhere", 1, 0, 0)} ELSE {})
           ELSE IF s.d = 3
           THEN {Part("slab", i, 0, m) : i \in D, m \in M}
           ELSE {})

(****************************** statistics *********************************)
RECURSIVE RootFrom(_, _)
RootFrom(x, r) == LET q == (r + x \div r) \div 2
                  IN IF q >= r THEN r ELSE RootFrom(x, q)
\* integer square root (x < 2^31)
Root(x) == IF x <= 0 THEN 0 ELSE RootFrom(x, IF x < 46340 THEN x ELSE 46340)
\* The number k of n <= 4000 trials of probability share/1000 is within six
\* standard deviations (shares are rounded, small numbers are not normal).
Fair(k, n, share) ==
  AbsV(k * 1000 - n * share) <=
    6 * Root(n * share * (1000 - share)) + n + 3000
Count(n, T(_)) == Cardinality({i \in 1..n : T(i)})
\* parts that got too many or too few of the points P
Uneven(s, P) ==
  {x \in Parts(s) :
     ~Fair(Count(Len(P), LAMBDA i : InPart(s, x, P[i])), Len(P), Share(s, x))}
\* Successive points are independent: with X a part of share p, both points of
\* a pair are in X or both are out of it with probability p^2 + (1-p)^2.
Dependent(s, P) ==
  LET h == Len(P) \div 2
  IN {x \in Parts(s) :
        LET q == Share(s, x)
            both == (q * q + (1000 - q) * (1000 - q)) \div 1000
        IN ~Fair(Count(h, LAMBDA i : InPart(s, x, P[2 * i - 1]) =
                                     InPart(s, x, P[2 * i])), h, both)}
\* Numbers k[1..n] of events of the intensity q / 4 each: mean and dispersion.
\* The variance of the sum of (k - lambda)^2 is n (lambda + 2 lambda^2).
RECURSIVE Sum(_, _)
Sum(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + Sum(F, n - 1)
MeanFair(k, q) ==
  LET n == Len(k)
  IN AbsV(4 * Sum(LAMBDA i : k[i], n) - n * q) <= 24 * Root((n * q) \div 4 + 1)
                                                 + 24
\* in sixteenths
SpreadFair(k, q) ==
  LET n == Len(k)
  IN AbsV(Sum(LAMBDA i : Sqr(4 * k[i] - q), n) - 4 * n * q) <=
       IF q <= 1000 THEN 96 * Root((n * (2 * q + q * q)) \div 8 + 1) + 400
       ELSE 960 * Root(n * ((q \div 8) * (q \div 100)) + 1) + 10000
=============================================================================
