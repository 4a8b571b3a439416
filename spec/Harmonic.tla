------------------------------ MODULE Harmonic ------------------------------
(***************************************************************************)
(* Harmonic numbers in exact arithmetic: fixed point numbers with 16       *)
(* decimals as <<i, a, b, c, d>> = i + a/10^4 + b/10^8 + c/10^12 + d/10^16 *)
(* and residues modulo primes for the exact fractions.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
B == 10000
\* carries (towards minus infinity) from the back to the front
RECURSIVE Carry(_, _)
Carry(x, i) == IF i = 1 THEN x
               ELSE Carry([x EXCEPT ![i - 1] = @ + x[i] \div B,
                                    ![i] = x[i] % B], i - 1)
Norm(x) == Carry(x, 5)
Add(x, y) == Norm([i \in 1..5 |-> x[i] + y[i]])
Sub(x, y) == Norm([i \in 1..5 |-> x[i] - y[i]])
Zero == <<0, 0, 0, 0, 0>>
\* division of a non-negative number by k < 200000
RECURSIVE Div(_, _, _, _)
Div(x, k, i, r) ==
  IF i = 6 THEN <<>>
  ELSE LET v == r * B + x[i] IN <<v \div k>> \o Div(x, k, i + 1, v % k)
Quot(x, k) == Div(x, k, 1, 0)
Unit(k) == Quot(<<1, 0, 0, 0, 0>>, k)
\* |x| <= m / 10^10
Small(x, m) ==
  LET y == IF x[1] < 0 THEN Sub(Zero, x) ELSE x
  IN y[1] = 0 /\ y[2] = 0 /\ y[3] * 100 + y[4] \div 100 <= m
Less(x, y) == Sub(x, y)[1] < 0

\* ln 2 and the step from H(n) to H(2n):
\* ln 2 - 1/(4n) + 1/(16n^2) - 1/(128n^4) + ..., below 10^-13 for n >= 1000
Ln2 == <<0, 6931, 4718, 559, 9453>>
\* u = 1/(4n), w = 1/(4n)^2
Doubling(h, u, w) == Add(Add(h, Ln2), Sub(w, u))
=============================================================================
