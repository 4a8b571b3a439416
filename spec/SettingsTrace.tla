---------------------------- MODULE SettingsTrace ----------------------------
(* Validation of recorded requests of plot settings and drawn artists.      *)
EXTENDS Settings, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE ci

\* sequences of pairs as functions
Map(s) == [k \in {s[i][1] : i \in DOMAIN s} |->
             s[CHOOSE i \in DOMAIN s : s[i][1] = k][2]]
Request(q) ==
  [dims |-> q.dims, gap |-> q.gap, limkind |-> q.limkind, lim |-> q.lim,
   hasshape |-> q.hasshape, shape |-> q.shape, opts |-> Map(q.opts),
   groups |-> LET m == Map(q.groups)
              IN [g \in GroupNames |-> [k |-> m[g].k, d |-> Map(m[g].d)]]]
Opt(r, k) == IF k \in DOMAIN r.opts THEN r.opts[k] ELSE ""

ParamClauses(S, schemes, r, o) ==
  LET m == Map(o.groups)
      one(g) ==
        IF Unsure(r, g) /\ g \notin DOMAIN m THEN {}
        ELSE IF ~On(r, g)
        THEN IF g \in DOMAIN m THEN {"on " \o g} ELSE {}
        ELSE IF g \notin DOMAIN m THEN {"off " \o g}
        ELSE IF GroupGood(S, schemes, r, g, Map(m[g])) THEN {}
        ELSE {"entries " \o g}
      p == Map(o.opts)
      opt(k, d) ==
        IF k \notin DOMAIN p THEN {"no " \o k}
        ELSE IF OptionGood(Opt(r, k), d, p[k]) THEN {} ELSE {k}
  IN UNION {one(g) : g \in GroupNames}
     \cup opt("aspect", "[s:equal,s:box]")
     \cup opt("conetimefade", "s:intensity")
     \cup opt("conetimedepth", "0.0000")
     \cup (IF Opt(r, "timedepth") = ""
           THEN IF "timedepth" \in DOMAIN p THEN {"timedepth"} ELSE {}
           ELSE opt("timedepth", "") \cup opt("timefade", "s:linear"))
     \cup (IF o.dims = r.dims THEN {} ELSE {"dims"})
     \cup (IF LimitsGood(r, o.lim) THEN {} ELSE {"axis limits"})

\* keys that are compared on the artists
Shown(r, g, k) == k \notin OpenKeys(r, g) \cup {"markevery"}
                  /\ ~(k = "alpha" /\ g \in {"pastcones", "futurecones"}
                       /\ Opt(r, "conetimefade") # "s:None")
PlotClauses(S, schemes, r, o) ==
  LET m == Map(o.artists)
      one(g) ==
        IF Unsure(r, g) THEN {}
        ELSE IF ~On(r, g) THEN IF g \in DOMAIN m THEN {"shown " \o g} ELSE {}
        ELSE IF g \notin DOMAIN m THEN {"not shown " \o g}
        ELSE LET e == Expected(S, schemes, r, g)
                 look == {Map(m[g][i]) : i \in DOMAIN m[g]}
             IN IF \A a \in look : \A k \in DOMAIN a \cap DOMAIN e :
                     Shown(r, g, k) => a[k] = e[k]
                THEN {} ELSE {"look of " \o g}
  IN UNION {one(g) : g \in GroupNames}
     \cup (IF Three(r) THEN {}
           ELSE IF OptionGood(Opt(r, "aspect"), "[s:equal,s:box]", o.aspect)
           THEN {} ELSE {"axes aspect"})
     \cup (IF \/ (r.limkind = "given" /\ ~Same(o.lim, r.lim))
              \/ (r.limkind = "shape"
                    /\ ~Same(o.lim, ShapeLimits(r.shape, r.dims)))
           THEN {"limits of the axes"} ELSE {})

StepClauses(S, c, s) ==
  LET r == Request(s.q)
  IN IF ~ValidDims(r)
     THEN IF s.err = "ValueError" THEN {}
          ELSE {"accepted dims " \o s.err}
     ELSE IF s.err # "" THEN {"error " \o s.err}
     ELSE (IF s.kept THEN {} ELSE {"argument changed"})
          \cup (IF s.op = "param" THEN ParamClauses(S, c.schemes, r, s.res)
                ELSE PlotClauses(S, c.schemes, r, s.res))

RECURSIVE Judge(_, _, _)
Judge(S, c, i) ==
  IF i > Len(c.steps) THEN {}
  ELSE LET s == c.steps[i] IN
       IF s.op = "colours"
       THEN (IF s.err = (IF Known(DOMAIN c.schemes, s.name) THEN ""
                         ELSE "ValueError") THEN {} ELSE {"error " \o s.err})
            \cup Judge(SetColours(S, DOMAIN c.schemes, s.name, Map(s.over)),
                       c, i + 1)
       ELSE StepClauses(S, c, s) \cup Judge(S, c, i + 1)
Clauses(c) == Judge(InitState(Map(c.init)), c, 1)

Init == ci = 1
Next ==
  /\ ci <= Len(Cases)
  /\ LET c == Cases[ci]
         b == TLCEval(Clauses(c))
     IN b # {} => PrintT("BAD " \o ToJson([id |-> c.id, c |-> b]))
  /\ (ci = Len(Cases)) => PrintT("DONE " \o ToString(ci))
  /\ ci' = ci + 1
Spec == Init /\ [][Next]_ci
=============================================================================
