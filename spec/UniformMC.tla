----------------------------- MODULE UniformMC ------------------------------
(***************************************************************************)
(* The shares of the parts against the count of the cells of a fine grid:  *)
(* both agree up to the cells cut by the boundaries.                       *)
(***************************************************************************)
EXTENDS Uniform
CONSTANT Deep
VARIABLE s

Of(name, d, h) == [name |-> name, d |-> d, h |-> h, r |-> 1, dur |-> 2,
                   c |-> [i \in 1..d |-> 0], edges |-> [i \in 1..d |-> 1]]
ShapeSet == {Of(n, d, h) : n \in Round \ {"diamond"}, d \in 1..3,
                           h \in {0, 5}}
            \cup {Of("cube", d, 0) : d \in 1..3}
Steps(d) == IF d = 3 THEN (IF Deep THEN 50 ELSE 26) ELSE 200
\* midpoints of the cells
Grid(d) ==
  LET n == Steps(d)
  IN [1..d -> {((2 * k + 1) * Q) \div n - Q : k \in 0..(n - 1)}]
Exact(t, p) == LET hole == t.h * Tenth
  IN CASE t.name = "ball" -> Norm2(p, 1) <= Sqr(Q) /\ Norm2(p, 1) >= Sqr(hole)
       [] t.name = "cylinder" ->
            t.d > 1 => Norm2(p, 2) <= Sqr(Q) /\ Norm2(p, 2) >= Sqr(hole)
       [] t.name = "bicone" ->
            /\ Norm2(p, 2) <= Sqr(Q - AbsV(p[1]))
            /\ AbsV(p[1]) >= hole \/ Norm2(p, 2) >= Sqr(hole - AbsV(p[1]))
       [] OTHER -> TRUE
Init == s \in {t \in ShapeSet : ~(t.d = 1 /\ t.h > 0 /\ t.name = "cylinder")}
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
Agree ==
  LET G == TLCEval({p \in Grid(s.d) : Exact(s, p)})
      n == Cardinality(G)
  IN \A x \in Parts(s) :
       LET k == Cardinality({p \in G : InPart(s, x, p)})
       IN AbsV((k * 1000) \div n - Share(s, x)) <=
            (IF s.d = 3 THEN IF Deep THEN 40 ELSE 70 ELSE 15)
          \/ ~PrintT(<<s, x, (k * 1000) \div n, Share(s, x)>>)
=============================================================================
