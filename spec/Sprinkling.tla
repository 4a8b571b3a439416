----------------------------- MODULE Sprinkling -----------------------------
(***************************************************************************)
(* Account of intensity and cardinality of a SprinkledCauset. A state is   *)
(* [card, num, den]: the number of members and the intensity num / den in  *)
(* lowest terms.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Reduce(n, d) == IF n = 0 THEN <<0, 1>>
                ELSE LET g == Gcd(n, d) IN <<n \div g, d \div g>>
With(s, card, q) == [card |-> card, num |-> q[1], den |-> q[2]]

EmptySpr == [card |-> 0, num |-> 0, den |-> 1]
\* `new' events whose intensity is n / d
Raise(s, new, n, d) == With(s, s.card + new,
                            Reduce(s.num * d + n * s.den, s.den * d))
\* a sprinkle of n events, creation of n events or addition of n new events
DoSprinkle(s, n) == Raise(s, n, n, 1)
\* an intensity in quarters, k events were sprinkled
DoIntensify(s, quarters, k) == Raise(s, k, quarters, 4)
\* k members are discarded
DoDiscardSpr(s, k) ==
  IF s.card = 0 THEN s
  ELSE With(s, s.card - k, Reduce(s.num * (s.card - k), s.den * s.card))
=============================================================================
