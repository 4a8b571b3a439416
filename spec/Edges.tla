------------------------------- MODULE Edges --------------------------------
(***************************************************************************)
(* The outlines and surfaces that the shapes are drawn with. Points are    *)
(* integers: ten thousandths of the length unit, relative to the centre    *)
(* (for an open cone, to its tip). An outline is a sequence of rows, the   *)
(* empty row separates its closed parts. A surface is a sequence of rows   *)
(* of points.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

One == 10000
Tol == 3
AbsE(x) == IF x < 0 THEN -x ELSE x
Near(x, y) == AbsE(x - y) <= Tol
NearPt(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p : Near(p[i], q[i])
Norm2(p) == p[1] * p[1] + p[2] * p[2]
Dist2(p, q) == Norm2(<<p[1] - q[1], p[2] - q[2]>>)
Cross(p, q) == (p[1] \div 32) * (q[2] \div 32)
               - (p[2] \div 32) * (q[1] \div 32)

Samples(s) == IF s <= 0 THEN 128 ELSE s

(******************************* outlines ***********************************)
Gaps(P) == {i \in DOMAIN P : P[i] = <<>>}
\* the closed parts: one, or two that are separated by one empty row
Parts(P) ==
  IF Gaps(P) = {} THEN <<P>>
  ELSE LET g == CHOOSE i \in Gaps(P) : \A j \in Gaps(P) : i <= j
       IN <<SubSeq(P, 1, g - 1), SubSeq(P, g + 1, Len(P))>>
Closed(P) == Len(P) > 1 /\ NearPt(P[1], P[Len(P)])
\* P goes once around the corners, from any of them, in any direction
Around(P, corners) ==
  LET k == Len(corners)
      at(s, d, i) == corners[(((s + d * i + k) % k)) + 1]
  IN /\ Len(P) = k + 1
     /\ \E s \in 0..(k - 1), d \in {1, -1} :
          \A i \in 0..k : NearPt(P[i + 1], at(s, d, i))
Turn(P) == \* direction of a closed part, by its area
  LET RECURSIVE sum(_)
      sum(i) == IF i >= Len(P) THEN 0
                ELSE Cross(P[i], P[i + 1]) + sum(i + 1)
  IN IF sum(1) > 0 THEN 1 ELSE -1
\* a regular polygon of s corners on the unit circle, as closed part
Ring(P, s) ==
  /\ Len(P) = s + 1 /\ Closed(P)
  /\ \A i \in DOMAIN P : AbsE(P[i][1]) <= One + 99 /\ AbsE(P[i][2]) <= One + 99
  /\ \A i \in DOMAIN P : AbsE(Norm2(P[i]) - One * One) <= 12 * One
  /\ LET c == Dist2(P[1], P[2])
         tol == c \div 20 + 1500
     IN /\ \A i \in 1..s : AbsE(Dist2(P[i], P[i + 1]) - c) <= tol
        /\ \A j \in 2..s : Dist2(P[1], P[j]) >= c - tol
\* with the radii a and b in units of 1/k
Scaled(P, a, b, k) == [i \in DOMAIN P |-> <<(P[i][1] * k) \div a,
                                           (P[i][2] * k) \div b>>]
\* h: inner radius in tenths of the outer one
RingOutline(P, a, b, h, s) ==
  LET p == TLCEval(Parts(P))
      outer == TLCEval(Scaled(p[1], a, b, 1))
      inner == TLCEval(Scaled(p[2], a * h, b * h, 10))
  IN IF h = 0 THEN Len(p) = 1 /\ Ring(outer, s)
     ELSE /\ Len(p) = 2 /\ Ring(outer, s) /\ Ring(inner, s)
          /\ Turn(outer) # Turn(inner)
Diamond(r) == <<<<0, r>>, <<-r, 0>>, <<0, -r>>, <<r, 0>>>>
BiconeOutline(P, r, h) ==
  LET p == Parts(P)
  IN IF h = 0 THEN Len(p) = 1 /\ Around(p[1], Diamond(r * One))
     ELSE /\ Len(p) = 2 /\ Around(p[1], Diamond(r * One))
          /\ Around(p[2], Diamond(r * h * (One \div 10)))
          /\ Turn(p[1]) # Turn(p[2])
Box(x1, y1, x2, y2) == <<<<x1, y1>>, <<x2, y1>>, <<x2, y2>>, <<x1, y2>>>>
CylinderOutline(P, r, e, h) ==
  LET R == r * One
      H == e * (One \div 2)
      i == r * h * (One \div 10)
      p == Parts(P)
      left == Box(-R, -H, -i, H)
      right == Box(i, -H, R, H)
  IN IF h = 0 THEN Len(p) = 1 /\ Around(p[1], Box(-R, -H, R, H))
     ELSE Len(p) = 2 /\ \/ Around(p[1], left) /\ Around(p[2], right)
                        \/ Around(p[1], right) /\ Around(p[2], left)

(******************************* surfaces ***********************************)
\* all points of a surface: rows of rows; a point is a triple
PointsOf(M) == UNION {{M[i][j] : j \in DOMAIN M[i]} : i \in DOMAIN M}
Drop(p, z) == IF z = 1 THEN <<p[2], p[3]>>
              ELSE IF z = 2 THEN <<p[3], p[1]>> ELSE <<p[1], p[2]>>
\* M is the flat rectangle between two corners of the box, one axis fixed
Face(M, e, axis, sign) ==
  LET half(i) == e[i] * (One \div 2)
      corners == {p \in {-1, 1} \X {-1, 1} \X {-1, 1} : p[axis] = sign}
      isC(p, c) == \A i \in 1..3 : Near(p[i], c[i] * half(i))
  IN /\ \A p \in PointsOf(M) : \E c \in corners : isC(p, c)
     /\ \A c \in corners : \E p \in PointsOf(M) : isC(p, c)
CuboidSurface(S, e) ==
  /\ Len(S) = 6
  /\ \A axis \in 1..3, sign \in {-1, 1} : \E k \in 1..6 :
       Face(S[k], e, axis, sign)
Column(M, j) == [i \in DOMAIN M |-> M[i][j]]
\* row of points at one height on a ring of radius q tenths of r
RowRing(row, r, z, q, s) ==
  /\ Len(row) = s + 1
  /\ \A i \in DOMAIN row : Near(row[i][z], row[1][z])
  /\ LET P == TLCEval([i \in DOMAIN row |-> Drop(row[i], z)])
     IN IF q = 0 THEN \A i \in DOMAIN P : NearPt(P[i], <<0, 0>>)
        ELSE Ring(TLCEval(Scaled(P, r * q, r * q, 10)), s)
CylinderSurface(S, r, e, h, z, s) ==
  LET M == S[1]
      k == Len(M)
      \* the profile: <<radius in tenths, end>>
      open == <<<<0, -1>>, <<10, -1>>, <<10, 1>>, <<0, 1>>>>
      ring == <<<<h, -1>>, <<10, -1>>, <<10, 1>>, <<h, 1>>>>
      fits(row, w) == /\ RowRing(row, r, z, w[1], s)
                      /\ Near(row[1][z], w[2] * e * (One \div 2))
      at(a, d, i) == ring[(((a + d * i + 4) % 4)) + 1]
  IN /\ Len(S) = 1
     /\ IF h = 0
        THEN k = 4 /\ \/ \A i \in 1..4 : fits(M[i], open[i])
                      \/ \A i \in 1..4 : fits(M[i], open[5 - i])
        ELSE k = 5 /\ \E a \in 0..3, d \in {1, -1} :
                        \A i \in 0..4 : fits(M[i + 1], at(a, d, i))
ConeSurface(S, r, e, z, s) ==
  LET M == S[1]
      tip(row) == RowRing(row, r, z, 0, s) /\ Near(row[1][z], 0)
      rim(row) == RowRing(row, r, z, 10, s) /\ Near(row[1][z], e * One)
  IN /\ Len(S) = 1 /\ Len(M) = 2
     /\ \/ tip(M[1]) /\ rim(M[2])
        \/ tip(M[2]) /\ rim(M[1])
BallSurface(S, r, s) ==
  LET M == S[1]
      cols == Len(M[1])
      u(x) == x \div r
      sph(p) == u(p[1]) * u(p[1]) + u(p[2]) * u(p[2]) + u(p[3]) * u(p[3])
      d2(p, q) == LET a == u(p[1]) - u(q[1])
                      b == u(p[2]) - u(q[2])
                      c == u(p[3]) - u(q[3])
                  IN a * a + b * b + c * c
      even(P) == LET c == d2(P[1], P[2])
                 IN \A i \in 1..(Len(P) - 1) :
                      AbsE(d2(P[i], P[i + 1]) - c) <= c \div 20 + 1500
  IN /\ Len(S) = 1 /\ Len(M) = s + 1
     /\ AbsE(2 * cols - (s + 1)) <= 1
     /\ \A i \in DOMAIN M : Len(M[i]) = cols
     /\ \A p \in PointsOf(M) : \A x \in 1..3 : AbsE(u(p[x])) <= One + 99
     /\ \A p \in PointsOf(M) : AbsE(sph(p) - One * One) <= 12 * One
     \* meridians from pole to pole
     /\ \A i \in DOMAIN M :
          /\ AbsE(u(M[i][1][3]) - One) <= 5 /\ AbsE(u(M[i][cols][3]) + One) <= 5
          /\ even(M[i])
     /\ \A i \in DOMAIN M : \A j \in 1..(cols - 1) : M[i][j][3] > M[i][j + 1][3]
     \* parallels that are closed
     /\ \A j \in 1..cols : LET C == Column(M, j) IN
          /\ even(C) /\ NearPt(C[1], C[s + 1])
          /\ \A i \in DOMAIN C : Near(C[i][3], C[1][3])
     /\ LET C == Column(M, (cols + 1) \div 2)
        IN cols > 2 => \A i \in 2..s : d2(C[1], C[i]) >=
                        d2(C[1], C[2]) - d2(C[1], C[2]) \div 20 - 1500

Good(a, P) ==
  LET s == Samples(a.s)
  IN CASE a.fn = "RectangleEdge" ->
            Around(P, Box(0, 0, a.w * One, a.e * One))
       [] a.fn = "CircleEdge" -> RingOutline(P, a.r, a.r, a.h, s)
       [] a.fn = "EllipseEdge" -> RingOutline(P, a.r, a.w, a.h, s)
       [] a.fn = "BiconeEdge" -> BiconeOutline(P, a.r, a.h)
       [] a.fn = "CylinderCutEdge" -> CylinderOutline(P, a.r, a.e, a.h)
       [] a.fn = "CuboidSurface" -> CuboidSurface(P, <<a.r, a.w, a.e>>)
       [] a.fn = "CubeSurface" -> CuboidSurface(P, <<a.r, a.r, a.r>>)
       [] a.fn = "BallSurface" -> BallSurface(P, a.r, s)
       [] a.fn = "CylinderSurface" ->
            CylinderSurface(P, a.r, a.e, a.h, a.z + 1, s)
       [] a.fn = "OpenConeSurface" -> ConeSurface(P, a.r, a.e, a.z + 1, s)
=============================================================================
