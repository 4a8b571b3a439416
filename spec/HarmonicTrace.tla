--------------------------- MODULE HarmonicTrace ----------------------------
(***************************************************************************)
(* Validation of recorded harmonic numbers. First all n = 0, 1, 2, ... up  *)
(* to Len(C.scalar)-1 with the exact sum kept in the specification, then   *)
(* the doubling chains a, 2a, 4a, ... from a to values beyond 10^15.       *)
(* A case holds                                                            *)
(*   approx  the approximation threshold                                   *)
(*   scalar, vector   fixed point values of H(0), H(1), ...                *)
(*   frac    <<num mod p, den mod p, num mod q, den mod q>> of the exact   *)
(*           fractions from HarmonicNumberFraction(s)                      *)
(*   chains  [a, h]: values of H(a 2^j), j = 0, 1, ...                     *)
(***************************************************************************)
EXTENDS Harmonic, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, n, h, f
vars == <<ci, n, h, f>>
P == <<46327, 46337>>   \* primes

Close(x, y) == Small(Sub(x, y), 10)  \* 10^-9
\* x = <<num, den>> modulo p plus 1/k
PlusUnit(x, k, p) == <<(x[1] * (k % p) + x[2]) % p, (x[2] * (k % p)) % p>>
SameFraction(x, a, b, p) == (x[1] * b) % p = (x[2] * a) % p /\ b # 0

RECURSIVE Chain(_, _, _, _, _)
\* h: exact value at the j-th element of the chain
Chain(c, j, x, u, w) ==
  IF j > Len(c.h) THEN {}
  ELSE (IF ~Close(c.h[j], x) THEN {"large value"} ELSE {})
       \cup (IF j > 1 /\ ~Less(c.h[j - 1], c.h[j]) THEN {"increasing"} ELSE {})
       \cup LET y == TLCEval(Doubling(x, u, w))
                u2 == TLCEval(Quot(u, 2))
                w2 == TLCEval(Quot(w, 4))
            IN Chain(c, j + 1, y, u2, w2)
At(c, k) ==
  LET x == c.scalar[k + 1]
      y == c.vector[k + 1]
      g == c.frac[k + 1]
  IN (IF ~Close(x, h) THEN {"HarmonicNumber"} ELSE {})
     \cup (IF ~Close(y, h) THEN {"HarmonicNumbers"} ELSE {})
     \cup (IF ~Close(x, y) THEN {"agree"} ELSE {})
     \cup (IF k > 0 /\ ~(Less(c.scalar[k], x) /\ Less(c.vector[k], y))
           THEN {"increasing"} ELSE {})
     \cup (IF ~(SameFraction(f[1], g[1], g[2], P[1])
                /\ SameFraction(f[2], g[3], g[4], P[2]))
           THEN {"HarmonicNumberFraction"} ELSE {})
     \cup (IF ~(SameFraction(f[1], g[5], g[6], P[1])
                /\ SameFraction(f[2], g[7], g[8], P[2]))
           THEN {"HarmonicNumberFractions"} ELSE {})
     \cup UNION {IF c.chains[i].a = k
                 THEN LET u == TLCEval(Unit(4 * k))
                          w == TLCEval(Quot(u, 4 * k))
                      IN Chain(c.chains[i], 1, h, u, w)
                 ELSE {} : i \in DOMAIN c.chains}

Init == ci = 1 /\ n = 0 /\ h = Zero /\ f = <<<<0, 1>>, <<0, 1>>>>
Next ==
  /\ ci <= Len(Cases)
  /\ LET c == Cases[ci]
         b == TLCEval(IF c.err # "" THEN {"error " \o c.err} ELSE At(c, n))
     IN /\ b # {} => PrintT("BAD " \o ToJson([id |-> c.id, step |-> n,
                                              c |-> b]))
        /\ IF b = {} /\ n + 1 < Len(c.scalar)
           THEN /\ ci' = ci /\ n' = n + 1
                /\ h' = TLCEval(Add(h, Unit(n + 1)))
                /\ f' = TLCEval([i \in 1..2 |-> PlusUnit(f[i], n + 1, P[i])])
           ELSE /\ ci' = ci + 1 /\ n' = 0 /\ h' = Zero
                /\ f' = <<<<0, 1>>, <<0, 1>>>>
                /\ (ci = Len(Cases)) => PrintT("DONE " \o ToString(ci))
Spec == Init /\ [][Next]_vars
=============================================================================
