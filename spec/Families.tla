------------------------------ MODULE Families ------------------------------
(***************************************************************************)
(* The families of causets that can be generated (C06). A family is given  *)
(* by the pasts of its events 1..n (the numbers are the labels), or by the *)
(* faces of a simplex ordered by inclusion.                                *)
(***************************************************************************)
EXTENDS Order

Idx(seq, x) == CHOOSE k \in DOMAIN seq : seq[k] = x
\* a family is given by its labels 1..n (as written in labs) and past on 1..n
PermPast(P) == [u \in 1..Len(P) |->
                 {v \in 1..(u - 1) : Idx(P, v) < Idx(P, u)}]
RECURSIVE JoinNums(_)
JoinNums(S) == LET m == Min(S) IN
  IF Cardinality(S) = 1 THEN ToString(m)
  ELSE ToString(m) \o "-" \o JoinNums(S \ {m})
FaceLabel(S) == "s:" \o JoinNums(S)
Faces(d, central) ==
  {S \in SUBSET (1..(d + 1)) : S # {} /\ (Cardinality(S) <= d \/ d = 0
                                          \/ (central /\ d > 0))}
FencePast(length, height, closed) ==
  LET n == (height + 1) * length
      link(x) == IF x <= length THEN {}
                 ELSE LET b == x - length          \* the event straight below
                          first == (x - 1) % length = 0
                      IN IF first
                         THEN (IF closed THEN {b, b + length - 1} ELSE {b})
                         ELSE {b, b - 1}
  IN Closure(1..n, [x \in 1..n |-> link(x)])
ChainPast(n) == [x \in 1..n |-> 1..(x - 1)]
FencePastFull(length, height, closed) ==
  IF length < 1 \/ height < 0 THEN [x \in {} |-> {}]
  ELSE IF length = 1 THEN ChainPast(height + 1)
  ELSE FencePast(length, height, closed)
FamPast(a) ==
  CASE a.fam = "perm" -> PermPast(a.args)
    [] a.fam = "chain" -> ChainPast(a.args[1])
    [] a.fam = "antichain" -> [x \in 1..a.args[1] |-> {}]
    [] a.fam = "fence" -> FencePastFull(a.args[1], a.args[2], a.args[3] = 1)
    [] a.fam = "fence0" -> FencePastFull(a.args[1], 1, TRUE)
    [] a.fam = "crown" -> FencePastFull(IF a.args = <<>> THEN 3 ELSE a.args[1],
                                        1, TRUE)

(************************ closed forms for large families ******************)
\* event at height h and position p (from 0) of a fence
FenceNo(length, h, p) == h * length + p + 1
FenceClosedForm(length, height, closed) ==
  [x \in 1..((height + 1) * length) |->
     LET h == (x - 1) \div length
         p == (x - 1) % length
     IN UNION {{FenceNo(length, h - k,
                        IF closed THEN (p - i + k * length) % length
                        ELSE IF p > i THEN p - i ELSE 0) : i \in 0..k}
               : k \in 1..h}]
LargePast(a) ==
  IF a.fam = "fence" /\ a.args[1] > 1
  THEN FenceClosedForm(a.args[1], a.args[2], a.args[3] = 1)
  ELSE FamPast(a)
=============================================================================
