-------------------------- MODULE SprinklingTrace ---------------------------
(***************************************************************************)
(* Validation of recorded histories of SprinkledCauset (c.plain = FALSE)   *)
(* and EmbeddedCauset: cardinality, intensity, density and length scale    *)
(* after every step. Recorded numbers are scaled: intensity by K, density  *)
(* times volume by K, (length scale ^ dimension) times density by 10^6.    *)
(***************************************************************************)
EXTENDS Sprinkling, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, si, st
K == 10000
AbsS(x) == IF x < 0 THEN -x ELSE x

\* x is K * num / den up to rounding
Approx(x, num, den) == AbsS(x - (num * K) \div den) <= 2

Misfit == {"misfit sprinkle", "misfit intensify", "misfit create"}
Rejected(a) == \/ a.op \in {"sprinkle", "new card"} /\ a.n < 0
               \/ a.op \in {"intensify", "new intensity"} /\ a.q < 0
               \* a shape or coordinates of another dimension
               \/ a.op \in Misfit
\* o: observed cardinality and number of new members
Post(c, s, a, o) ==
  IF Rejected(a) THEN s
  ELSE CASE a.op \in {"sprinkle", "create", "add", "new card"} ->
              DoSprinkle(s, a.n)
         [] a.op \in {"intensify", "new intensity"} ->
              DoIntensify(s, a.q, o.card - s.card)
         [] a.op = "discard" -> DoDiscardSpr(s, a.n)
         [] OTHER -> s

Clauses(c, s, step) ==
  LET a == step.act
      o == step.post
      t == TLCEval(Post(c, s, a, o))
  IN IF Rejected(a) /\ step.err # "ValueError" THEN {"not rejected"}
     ELSE IF ~Rejected(a) /\ step.err # "" THEN {"error " \o step.err}
     ELSE (IF o.card # t.card \/ (a.op \in {"intensify", "new intensity"} /\
              ~Rejected(a) /\ (o.card < s.card \/
                               (a.q = 0 /\ o.card # s.card))) THEN {"Card"} ELSE {})
          \cup (IF ~c.plain /\ ~Approx(o.intensity, t.num, t.den)
                THEN {"Intensity"} ELSE {})
          \cup (IF (IF c.plain THEN o.density # o.card * K
                    ELSE ~Approx(o.density, t.num, t.den))
                THEN {"Density"} ELSE {})
          \cup (IF c.plain /\ t.card = 0
                THEN (IF o.length # 0 THEN {"LengthScale"} ELSE {})
                ELSE IF t.num > 0 /\ AbsS(o.length - 1000000) > 20
                THEN {"LengthScale"} ELSE {})

Init == ci = 1 /\ si = 1 /\ st = EmptySpr
Next ==
  /\ ci <= Len(Cases)
  /\ LET c == Cases[ci]
         step == c.steps[si]
         b == TLCEval(Clauses(c, st, step))
     IN /\ b # {} => PrintT("BAD " \o ToJson([id |-> c.id, step |-> si,
                                               c |-> b]))
        /\ IF si < Len(c.steps) /\ b = {}
           THEN /\ ci' = ci /\ si' = si + 1
                /\ st' = TLCEval(Post(c, st, step.act, step.post))
           ELSE /\ ci' = ci + 1 /\ si' = 1 /\ st' = EmptySpr
                /\ (ci = Len(Cases)) => PrintT("DONE " \o ToString(ci))
Spec == Init /\ [][Next]_<<ci, si, st>>
=============================================================================
