----------------------------- MODULE PlotTrace ------------------------------
(***************************************************************************)
(* Validation of recorded plots, see Plots. A case is a request q and the  *)
(* recorded calls: the time, and what has been added to the axes:          *)
(*   marks   [x, a]  points of visible event markers with their opacity    *)
(*   segs    pieces of lines as pairs of points                            *)
(*   extra   number of visible markers on lines, dots their points x and   *)
(*           the other end o of the line                                  *)
(*   texts   [x, s]  labels                                                *)
(*   handles number of pointers returned for events, links, labels (-1: no *)
(*           entry), lim  axis limits, kept  TRUE if no event has changed   *)
(*   own     TRUE if the pointers are those of artists added by this call   *)
(*   stay    TRUE if the results of all calls name what they named at first *)
(***************************************************************************)
EXTENDS Plots, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, si
NearMark(x, y) == Near(x.x, y.x)
NearText(x, y) == Near(x.x, y.x) /\ x.s = y.s

Visible(q, t) == IF q.dyn THEN SelectSeq(q.shown, LAMBDA e : Shown(q, t, e))
                 ELSE q.shown
Real(segs) == SelectSeq(segs, LAMBDA s : ~Near(s[1], s[2]))
\* a link that only reaches the time slice is cut to nothing at its event
RealDots(dots) == SelectSeq(dots, LAMBDA d : ~Near(d.x, d.o))

Clauses(q, r) ==
  LET vis == TLCEval(Visible(q, r.t))
      marks == IF q.events THEN [i \in DOMAIN vis |-> [x |-> Point(q, vis[i])]]
               ELSE <<>>
      texts == IF q.labels THEN [i \in DOMAIN vis |->
                  [x |-> Point(q, vis[i]), s |-> q.lab[vis[i]]]] ELSE <<>>
      segs == TLCEval(IF ~q.links THEN <<>>
                      ELSE IF q.dyn THEN DynSegments(q, r.t)
                      ELSE StaticSegments(q))
  IN IF r.err # "" THEN {"error " \o r.err}
     ELSE (IF ~SameBag(marks, r.marks, NearMark) THEN {"events"} ELSE {})
     \cup (IF ~SameBag(texts, r.texts, NearText) THEN {"labels"} ELSE {})
     \cup (IF q.dyn
           THEN (IF ~SubBag(Real(segs), Real(r.segs), NearSeg)
                 THEN {"links missing"} ELSE {})
                \cup (IF ~MaybeDyn(q, r.t) /\ Len(Real(r.segs)) # Len(Real(segs))
                      THEN {"links too many"} ELSE {})
                \* links are marked where they are cut (see plot_parameters)
                \cup (IF q.links /\ ~q.gap /\ ~MaybeDyn(q, r.t) /\
                         ~SameBag(RealDots(DynDots(q, r.t)), RealDots(r.dots), NearMark)
                      THEN {"markers at cuts"} ELSE {})
           ELSE IF ~SameBag(segs, r.segs, NearSeg) THEN {"links"} ELSE {})
     \cup (IF ~q.dyn /\ r.extra # 0 THEN {"markers on links"} ELSE {})
     \cup (IF q.dyn /\ q.events /\ \E i \in DOMAIN r.marks :
              ~\E j \in DOMAIN vis : Near(Point(q, vis[j]), r.marks[i].x)
                   /\ OpacityOK(q, r.t, vis[j], r.marks[i].a)
           THEN {"opacity"} ELSE {})
     \cup (IF r.handles.events # (IF q.events THEN Len(marks) ELSE -1)
              \/ r.handles.labels # (IF q.labels THEN Len(texts) ELSE -1)
              \/ (~q.dyn /\ r.handles.links #
                            (IF q.links THEN Len(segs) ELSE -1))
           THEN {"handles"} ELSE {})
     \cup (IF q.lim # <<>> /\ (Len(q.lim) # Len(r.lim) \/
                \E i \in DOMAIN q.lim : ~Near(q.lim[i], r.lim[i]))
           THEN {"limits"} ELSE {})
     \cup (IF ~r.kept THEN {"events changed"} ELSE {})
     \cup (IF ~r.own THEN {"foreign handles"} ELSE {})
     \cup (IF ~r.stay THEN {"earlier handles changed"} ELSE {})

(* Hasse diagram of a permutation: the events, sorted by label, are placed   *)
(* such that one is in the past of the other exactly when it lies in its     *)
(* past light cone (time upwards).                                          *)
DiagramClauses(q, r) ==
  IF r.err # "" THEN {"error " \o r.err}
  ELSE IF \E i \in DOMAIN r.pos : \E j \in DOMAIN r.pos : i # j /\
            LET dt == r.pos[j][1] - r.pos[i][1]
                dx == AbsP(r.pos[j][2] - r.pos[i][2])
            IN ~((i \in Elem(r.past[j])) <=> (dt > 0 /\ dx < dt))
       THEN {"diagram"} ELSE {}
     \cup (IF ~SameBag([i \in DOMAIN r.pos |-> [x |-> <<r.pos[i][2], r.pos[i][1]>>]],
                       r.marks, NearMark) THEN {"diagram events"} ELSE {})

Init == ci = 1 /\ si = 1
Next ==
  /\ ci <= Len(Cases)
  /\ LET c == Cases[ci]
         r == c.calls[si]
         b == TLCEval(IF c.q.kind = "permutation" THEN DiagramClauses(c.q, r)
                      ELSE Clauses(c.q, r))
     IN /\ b # {} => PrintT("BAD " \o ToJson([id |-> c.id, step |-> si,
                                               c |-> b]))
        /\ IF si < Len(c.calls) /\ b = {}
           THEN ci' = ci /\ si' = si + 1
           ELSE /\ ci' = ci + 1 /\ si' = 1
                /\ (ci = Len(Cases)) => PrintT("DONE " \o ToString(ci))
Spec == Init /\ [][Next]_<<ci, si>>
=============================================================================
