---------------------------- MODULE FamilyTrace -----------------------------
(***************************************************************************)
(* Validation of large members of the generated families (C06). A case     *)
(* holds the call a and the events found in the causet, numbered 1..n:     *)
(* their labels, pasts, futures and past links.                            *)
(***************************************************************************)
EXTENDS Families, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE ci
Elem(s) == {s[i] : i \in DOMAIN s}

Converse(r) ==
  LET n == Len(r.past)
  IN /\ \A i \in 1..n : \A j \in Elem(r.past[i]) : i \in Elem(r.fut[j])
     /\ \A i \in 1..n : \A j \in Elem(r.fut[i]) : i \in Elem(r.past[j])

SimplexClauses(c) ==
  LET F == TLCEval(Faces(c.a.args[1], c.a.args[2] # 0))
      r == c.res
      D == DOMAIN r.lab
  IN IF Cardinality(F) # Len(r.lab) THEN {"members"}
     ELSE LET name == TLCEval([S \in F |-> FaceLabel(S)])
          IN IF {name[S] : S \in F} # Elem(r.lab) THEN {"labels"}
             ELSE LET ix == TLCEval([S \in F |->
                               CHOOSE k \in D : r.lab[k] = name[S]])
                  IN (IF \E S \in F : Elem(r.past[ix[S]]) #
                            {ix[T] : T \in (SUBSET S) \ {S, {}}}
                      THEN {"order"} ELSE {})
                     \cup (IF \E S \in F : Elem(r.lp[ix[S]]) #
                            {ix[S \ {x}] : x \in IF Cardinality(S) = 1
                                                 THEN {} ELSE S}
                           THEN {"links"} ELSE {})

NumberClauses(c) ==
  LET P == TLCEval(LargePast(c.a))
      r == c.res
      N == DOMAIN P
  IN IF r.lab # [i \in N |-> "i:" \o ToString(i)] THEN {"labels"}
     ELSE (IF \E i \in N : Elem(r.past[i]) # P[i] THEN {"order"} ELSE {})
          \cup (IF \E i \in N : Elem(r.lp[i]) # P[i] \ UNION {P[j] : j \in P[i]}
                THEN {"links"} ELSE {})

Clauses(c) ==
  IF c.err # "" THEN {"error"}
  ELSE (IF c.a.fam = "simplex" THEN SimplexClauses(c) ELSE NumberClauses(c))
       \cup (IF ~Converse(c.res) THEN {"futures"} ELSE {})

Init == ci = 1
Next ==
  /\ ci <= Len(Cases)
  /\ LET c == Cases[ci]
         b == TLCEval(Clauses(c))
     IN b # {} => PrintT("BAD " \o ToJson([id |-> c.id, c |-> b]))
  /\ (ci = Len(Cases)) => PrintT("DONE " \o ToString(ci))
  /\ ci' = ci + 1
Spec == Init /\ [][Next]_ci
=============================================================================
