---------------------------- MODULE ColourTrace -----------------------------
(***************************************************************************)
(* Validation of recorded histories of colours. The first line of the      *)
(* trace file holds the scheme tables, the initial defaults and the        *)
(* normalised form (hex) of every colour string.                           *)
(***************************************************************************)
EXTENDS Colours, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, si, st
S0(c) == [cur |-> "matplotlib", def |-> c.init]
Parts == <<"links", "linksedge", "linksface", "eventsedge", "eventsface",
           "conesedge", "conesface">>

Clauses(c, s, step) ==
  LET a == step.act
      S == c.schemes
      x == TLCEval(Error(S, s, a))
      t == TLCEval(Post(S, s, a))
      r == step.res
  IN IF x # {} THEN IF step.err \in x THEN {} ELSE {"not rejected"}
     ELSE IF step.err # "" THEN {"error " \o step.err}
     ELSE (IF step.cur # t.cur THEN {"current scheme"} ELSE {})
     \cup CASE a.op \in {"color", "dict", "list"} ->
                 IF r # Converted(S, s, a) THEN {"resolved"} ELSE {}
            [] a.op \in {"pick", "get"} ->
                 IF r # S[IF a.op = "get" THEN s.cur ELSE a.name]
                 THEN {"scheme"} ELSE {}
            [] a.op = "plot" ->
                 UNION {IF r[p] # c.hex[PlotColour(S, s, a, p)]
                        THEN {"plot " \o p} ELSE {} : p \in DOMAIN r}
            [] OTHER -> {}

Init == ci = 1 /\ si = 1 /\ st = S0(Cases[1])
SchemeClauses(c) ==
  UNION {IF ~SchemeOK(c.schemes, c.init, n) THEN {"scheme " \o n} ELSE {} :
           n \in DOMAIN c.schemes}
  \cup UNION {UNION {IF c.valid[n][key] THEN {} ELSE {"colour " \o n} :
                       key \in DOMAIN c.schemes[n]} : n \in DOMAIN c.schemes}
Next ==
  /\ ci <= Len(Cases)
  /\ LET c == Cases[ci]
         step == c.steps[si]
         b == TLCEval((IF ci = 1 /\ si = 1 THEN SchemeClauses(c) ELSE {})
                      \cup Clauses(c, st, step))
     IN /\ b # {} => PrintT("BAD " \o ToJson([id |-> c.id, step |-> si,
                                               c |-> b]))
        /\ IF si < Len(c.steps) /\ b = {}
           THEN /\ ci' = ci /\ si' = si + 1
                /\ st' = TLCEval(Post(c.schemes, st, step.act))
           ELSE /\ ci' = ci + 1 /\ si' = 1
                /\ st' = IF ci = Len(Cases) THEN st ELSE S0(Cases[ci + 1])
                /\ (ci = Len(Cases)) => PrintT("DONE " \o ToString(ci))
Spec == Init /\ [][Next]_<<ci, si, st>>
=============================================================================
