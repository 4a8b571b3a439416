----------------------------- MODULE EventTrace -----------------------------
(* Validation of recorded histories of single events, see Events.          *)
EXTENDS Events, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, si, st
Elem(s) == {s[i] : i \in DOMAIN s}
\* JSON gives sets as sequences
Fix(s, step) ==
  LET a == step.act
      o == step.post
      v == IF a.op # "write" \/ Len(o) # Len(s) THEN <<>>
           ELSE IF a.what = "crd" THEN o[a.e].crd ELSE o[a.e].pos
  IN IF "past" \in DOMAIN a THEN [a EXCEPT !.past = Elem(@)]
     ELSE IF a.op = "write"
          THEN a @@ [took |-> v # <<>> /\ v[1] = a.v /\ step.err = ""]
          ELSE a

SeenEvent(x, o) ==
  (IF o.lab # x.lab THEN {"Label"} ELSE {})
  \cup (IF o.str # "" /\ o.str # x.lab THEN {"str"} ELSE {})
  \cup (IF o.emb # x.emb THEN {"isEmbedded"} ELSE {})
  \cup (IF o.err # (IF x.emb THEN "" ELSE "AttributeError") \/ o.crd # x.crd
        THEN {"Coordinates"} ELSE {})
  \cup (IF o.dim # Len(x.crd) THEN {"CoordinatesDim"} ELSE {})
  \cup (IF o.pos # x.pos THEN {"Position"} ELSE {})
  \cup (IF Elem(o.past) # x.past \/ Elem(o.future) # x.future
           \/ o.odd THEN {"relations"} ELSE {})
  \cup (IF o.linked /\ (Elem(o.lp) # x.lp \/ Elem(o.lf) # x.lf)
        THEN {"links"} ELSE {})

Clauses(s, step) ==
  LET a == TLCEval(Fix(s, step))
      x == TLCEval(Error(s, a))
      t == TLCEval(Post(s, a))
      o == step.post
  IN (IF x = {} /\ step.err # "" THEN {"error " \o step.err}
      ELSE IF x # {} /\ step.err \notin x THEN {"not rejected"} ELSE {})
     \cup (IF Len(o) # Len(t) THEN {"number"}
           ELSE UNION {{IF t[e].copy THEN "copy " \o y ELSE y :
                          y \in SeenEvent(t[e], o[e])} : e \in DOMAIN t})

Init == ci = 1 /\ si = 1 /\ st = <<>>
Next ==
  /\ ci <= Len(Cases)
  /\ LET c == Cases[ci]
         step == c.steps[si]
         b == TLCEval(Clauses(st, step))
     IN /\ b # {} => PrintT("BAD " \o ToJson([id |-> c.id, step |-> si,
                                               c |-> b]))
        /\ IF si < Len(c.steps) /\ b = {}
           THEN /\ ci' = ci /\ si' = si + 1
                /\ st' = TLCEval(Post(st, Fix(st, step)))
           ELSE /\ ci' = ci + 1 /\ si' = 1 /\ st' = <<>>
                /\ (ci = Len(Cases)) => PrintT("DONE " \o ToString(ci))
Spec == Init /\ [][Next]_<<ci, si, st>>
=============================================================================
