----------------------------- MODULE Spacetimes -----------------------------
(***************************************************************************)
(* The causal structure of the supported spacetimes, decided exactly on    *)
(* lattices of points for which the light cone condition is a comparison   *)
(* of integers (or of numbers a + b*ln 2 with integers a, b).              *)
(*                                                                         *)
(* A spacetime M is a record with the field k:                             *)
(*  "flat"  per: periods of the space directions (not positive: no period);*)
(*          point <<t, x, ...>> in any length unit.                        *)
(*  "dS"    R: point <<k, x, ...>>, time k * alpha * ln 2 and space        *)
(*          coordinates x * alpha / R of the static chart.                 *)
(*  "AdS"   R, p, q: point <<k, x, ...>>, time k * alpha * arccos(p / q)   *)
(*          and space coordinates x * alpha / R of the static chart.       *)
(*  "EF", "S"  two dimensional black hole in Eddington-Finkelstein or      *)
(*          Schwarzschild coordinates; point <<a, b, s, q>>, time          *)
(*          (a + b ln 2) * r_S / 16, radius q * r_S / 16 on the side s of  *)
(*          the origin, |q - 16| = 2^j.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

AbsI(x) == IF x < 0 THEN -x ELSE x
SgnI(x) == IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1
Sq(x) == x * x
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
RECURSIVE SumSeq(_, _)
SumSeq(s, k) == IF k > Len(s) THEN 0 ELSE s[k] + SumSeq(s, k + 1)
\* scalar product of the space coordinates
Dot(x, y) == SumSeq([i \in 1..(Len(x) - 1) |-> x[i + 1] * y[i + 1]], 1)

(******************************** flat *************************************)
\* shortest separation along a circle of circumference p
Around(d, p) == IF p <= 0 THEN AbsI(d)
                ELSE LET r == AbsI(d) % p IN IF r + r > p THEN p - r ELSE r
FlatBefore(M, x, y) ==
  LET dt == y[1] - x[1]
      d2 == SumSeq([i \in 1..(Len(x) - 1) |->
                      Sq(Around(y[i + 1] - x[i + 1], M.per[i]))], 1)
  IN dt >= 0 /\ dt * dt >= d2

(****************************** de Sitter **********************************)
\* Embedded in Minkowski space as a hyperboloid, x <= y iff the scalar product
\* of the embedded vectors is at least alpha^2 and y is later. In the chart:
\*   A_x A_y cosh(dt) + x.y >= R^2,  A_x^2 = R^2 - x.x, 2 cosh(k ln 2) = 2^k + 2^-k
InHorizon(M, x) == Dot(x, x) < Sq(M.R)
DeSitterBefore(M, x, y) ==
  LET k == y[1] - x[1]
      ax2 == Sq(M.R) - Dot(x, x)
      ay2 == Sq(M.R) - Dot(y, y)
      rhs == 2 * Pow(2, k) * (Sq(M.R) - Dot(x, y))
  IN /\ InHorizon(M, x) /\ InHorizon(M, y)
     /\ k >= 0
     /\ ax2 * ay2 * Sq(Pow(4, k) + 1) >= Sq(rhs)

(**************************** anti-de Sitter *******************************)
\* cos and sin(k theta) / sin(theta), times q^k
RECURSIVE CosN(_, _, _), SinN(_, _, _)
CosN(p, q, k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN p
                 ELSE 2 * p * CosN(p, q, k - 1) - q * q * CosN(p, q, k - 2)
SinN(p, q, k) == IF k = 0 THEN 0 ELSE IF k = 1 THEN 1
                 ELSE 2 * p * SinN(p, q, k - 1) - q * q * SinN(p, q, k - 2)
\* least number of time steps that is at least half a period
RECURSIVE HalfPeriod(_, _, _)
HalfPeriod(p, q, k) == IF SinN(p, q, k) < 0 THEN k ELSE HalfPeriod(p, q, k + 1)
\* R^2 + x.y >= A_x A_y cos(dt), A_x^2 = R^2 + x.x, or half a period passed
AntiDeSitterBefore(M, x, y) ==
  LET k == y[1] - x[1]
      lhs == Sq(M.R) + Dot(x, y)
      c == CosN(M.p, M.q, k)
      l2 == Sq(lhs) * Pow(M.q, 2 * k)
      r2 == (Sq(M.R) + Dot(x, x)) * (Sq(M.R) + Dot(y, y)) * Sq(c)
  IN /\ k >= 0
     /\ \/ k >= HalfPeriod(M.p, M.q, 1)
        \/ lhs >= 0 /\ c <= 0
        \/ lhs >= 0 /\ c > 0 /\ l2 >= r2
        \/ lhs < 0 /\ c < 0 /\ l2 <= r2

(****************************** black hole *********************************)
\* sign of a + b ln 2 for |a|, |b| <= 400
SgnL(a, b) == IF a = 0 /\ b = 0 THEN 0
              ELSE SgnI(a * 1000000 + b * 693147)
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
Lg(q) == Log2(AbsI(q - 16))
Inside(x) == x[4] < 16
\* points on the horizon are regular in Eddington-Finkelstein coordinates only
Horizon(x) == x[4] = 16
\* null coordinates as pairs <<a, b>> meaning a + b ln 2: V is constant along
\* ingoing, U along outgoing light rays (a common constant is left out)
NullV(M, x) == IF M.k = "EF" THEN <<x[1] + x[4], x[2]>>
               ELSE <<x[1] + x[4], x[2] + 16 * Lg(x[4])>>
NullU(M, x) == IF M.k = "EF" THEN <<x[1] - x[4], x[2] - 32 * Lg(x[4])>>
               ELSE <<x[1] - x[4], x[2] - 16 * Lg(x[4])>>
DiffSgn(u, w) == SgnL(w[1] - u[1], w[2] - u[2])
\* V never decreases to the future. U does not decrease to the future outside
\* of the horizon and does not increase inside; nothing leaves the inside, and
\* from outside everything inside with later V is reached. The horizon itself
\* is an outgoing light ray that is reached from outside and left to the inside.
BlackHoleBefore(M, x, y) ==
  /\ x[3] = y[3]
  /\ DiffSgn(NullV(M, x), NullV(M, y)) >= 0
  /\ IF Inside(x)
     THEN Inside(y) /\ DiffSgn(NullU(M, x), NullU(M, y)) <= 0
     ELSE IF Horizon(x) THEN Inside(y) \/ Horizon(y)
     ELSE Inside(y) \/ Horizon(y) \/ DiffSgn(NullU(M, x), NullU(M, y)) >= 0

\* On a light ray of the black hole the answer hinges on the last digit of a
\* logarithm (the code has no tolerance there): undecided, except at x itself.
OnRay(M, x, y) ==
  /\ M.k \in {"EF", "S"} /\ x # y
  /\ \/ DiffSgn(NullV(M, x), NullV(M, y)) = 0
     \/ ~Horizon(x) /\ ~Horizon(y) /\ DiffSgn(NullU(M, x), NullU(M, y)) = 0

(***************************** all together ********************************)
Before(M, x, y) ==
  CASE M.k = "flat" -> FlatBefore(M, x, y)
    [] M.k = "dS" -> DeSitterBefore(M, x, y)
    [] M.k = "AdS" -> AntiDeSitterBefore(M, x, y)
    [] OTHER -> BlackHoleBefore(M, x, y)
\* different coordinates of the same event of the spacetime
Same(M, x, y) ==
  CASE M.k = "flat" -> /\ x[1] = y[1]
                       /\ \A i \in 2..Len(x) : Around(y[i] - x[i],
                                                      M.per[i - 1]) = 0
    [] OTHER -> x = y
\* the answer of Causality()(x, y): (x <= y, x > y)
Causal(M, x, y) == <<Before(M, x, y), Before(M, y, x) /\ ~Same(M, x, y)>>
=============================================================================
