--------------------------- MODULE EmbeddedTrace ----------------------------
(***************************************************************************)
(* Validation of recorded histories of EmbeddedCauset. Every step holds    *)
(* the operation, and afterwards the members (numbered in the order of     *)
(* their creation), their coordinates, labels, relations and links.        *)
(***************************************************************************)
EXTENDS Embedded, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, si, st

Rng(s) == {s[i] : i \in DOMAIN s}
\* p.al are all events, p.ev the members
PairsOf(p, f) == {<<p.al[x], p.al[y]>> : <<x, y>> \in
                    {<<u, v>> \in (DOMAIN p.al) \X (DOMAIN p.al) :
                       p.al[u] \in Rng(f[v])}}
Foreign(f) == \E v \in DOMAIN f : 0 \in Rng(f[v])
InvPairsOf(p, f) == {<<q[2], q[1]>> : q \in PairsOf(p, f)}
ObsLab(p, e) == p.lab[CHOOSE x \in DOMAIN p.ev : p.ev[x] = e]
ObsCrd(p, e) == p.crd[CHOOSE x \in DOMAIN p.ev : p.ev[x] = e]

\* order of a permutation
PosIn(P, v) == CHOOSE i \in DOMAIN P : P[i] = v
PermPairs(P) == {<<u, v>> \in (DOMAIN P) \X (DOMAIN P) :
                   u < v /\ PosIn(P, u) < PosIn(P, v)}

Post(M, s, a) ==
  CASE a.op = "create" -> DoCreateEmb(M, s, a.pts, a.fmt, a.relate)
    [] a.op = "discard" -> DoDiscardEmb(s, Rng(a.s))
    [] a.op = "relate" -> DoRelateEmb(M, s)
    [] a.op = "add" -> DoAddEmb(s, a.pts, Rng(a.s))
    [] a.op = "embed" -> DoEmbedEmb(s, a.e, a.pt)
    [] OTHER -> s

Generic(M, s, step) ==
  LET a == step.act
      p == step.post
      t == TLCEval(Post(M, s, a))
      rel == TLCEval(PairsOf(p, p.past))
  IN (IF Rng(p.ev) # t.mem THEN {"members"} ELSE
      (IF \E e \in t.mem : ObsCrd(p, e) # t.crd[e]
       THEN {"coordinates"} ELSE {})
      \cup (IF a.op # "relabel" /\ \E e \in t.mem : ObsLab(p, e) # t.lab[e]
            THEN {"labels"} ELSE {})
      \cup (IF rel \cap (t.mem \X t.mem) # MemRel(t) THEN {"relations"} ELSE {})
      \cup (IF rel # t.rel THEN {"relations of other events"} ELSE {})
      \cup (IF Foreign(p.past) \/ Foreign(p.fut) THEN {"foreign event"}
            ELSE {})
      \cup (IF InvPairsOf(p, p.fut) # rel THEN {"two ends"} ELSE {})
      \cup (IF p.links /\ \/ PairsOf(p, p.lp) # CoverOf(DOMAIN t.crd, t.rel)
                          \/ InvPairsOf(p, p.lf) # CoverOf(DOMAIN t.crd, t.rel)
            THEN {"links"} ELSE {})
      \cup (IF a.op = "create" /\ Rng(step.ret) #
               {Len(s.crd) + i : i \in DOMAIN a.pts}
            THEN {"returned events"} ELSE {}))

\* labels 1..n in the order of the coordinate number dim
Relabelled(s, a, p) ==
  LET n == Cardinality(s.mem)
      num(e) == CHOOSE k \in 0..n : k = 0 \/ ObsLab(p, e) = "i:" \o ToString(k)
  IN IF {ObsLab(p, e) : e \in s.mem} # {"i:" \o ToString(k) : k \in 1..n}
     THEN {"relabel numbers"}
     ELSE LET L == TLCEval([k \in 1..n |->
                     CHOOSE e \in s.mem : ObsLab(p, e) = "i:" \o ToString(k)])
              up(k) == s.crd[L[k]][a.dim] <= s.crd[L[k + 1]][a.dim]
              down(k) == s.crd[L[k]][a.dim] >= s.crd[L[k + 1]][a.dim]
          IN IF \E k \in 1..(n - 1) : IF a.desc THEN ~down(k) ELSE ~up(k)
             THEN {"relabel order"} ELSE {}

\* event with label k of a permutation: all events have to lie in the diamond,
\* related like the numbers (coordinates are given in units of radius / n / 2)
Permuted(a, p) ==
  LET n == Len(a.perm)
      lab(k) == LabelOf(a.fmt, k)
  IN IF \/ Len(p.ev) # n
        \/ {p.lab[x] : x \in DOMAIN p.ev} # {lab(k) : k \in 1..n}
     THEN {"permutation labels"}
     ELSE LET L == TLCEval([k \in 1..n |->
                              CHOOSE x \in DOMAIN p.ev : p.lab[x] = lab(k)])
              rel == {<<u, v>> \in (1..n) \X (1..n) :
                        p.ev[L[u]] \in Rng(p.past[L[v]])}
              crd(k) == p.crd[L[k]]
              M == [k |-> "flat", per |-> <<0>>]
          IN (IF rel # PermPairs(a.perm) THEN {"permutation order"} ELSE {})
             \cup
             (IF \E k \in 1..n : AbsI(crd(k)[1]) + AbsI(crd(k)[2]) > 2 * n
              THEN {"permutation outside of the diamond"} ELSE {})
             \cup
             (IF \E u, v \in 1..n : u # v /\
                   Before(M, crd(u), crd(v)) # (<<u, v>> \in PermPairs(a.perm))
              THEN {"permutation coordinates"} ELSE {})
             \cup
             (IF ~p.inside THEN {"permutation shape"} ELSE {})

Clauses(c, s, step) ==
  IF step.err # "" THEN {"error " \o step.err}
  ELSE IF step.act.op = "perm" THEN Permuted(step.act, step.post)
  ELSE LET g == Generic(c.m, s, step)
       IN IF step.act.op = "relabel" /\ "members" \notin g
          THEN g \cup Relabelled(s, step.act, step.post) ELSE g

\* relabelling changes the labels of the members
After(c, s, step) ==
  LET t == Post(c.m, s, step.act)
      p == step.post
  IN IF step.act.op = "relabel" /\ step.err = "" /\ Rng(p.ev) = s.mem
     THEN [t EXCEPT !.lab = [e \in DOMAIN @ |->
             IF e \in s.mem THEN ObsLab(p, e) ELSE @[e]]]
     ELSE t

Init == ci = 1 /\ si = 1 /\ st = EmptyEmb
Next ==
  /\ ci <= Len(Cases)
  /\ LET c == Cases[ci]
         step == c.steps[si]
         b == TLCEval(Clauses(c, st, step))
         stop == b # {}     \* the rest would only repeat the deviation
     IN /\ b # {} => PrintT("BAD " \o ToJson([id |-> c.id, step |-> si,
                                               c |-> b]))
        /\ IF si < Len(c.steps) /\ ~stop
           THEN /\ ci' = ci /\ si' = si + 1
                /\ st' = TLCEval(After(c, st, step))
           ELSE /\ ci' = ci + 1 /\ si' = 1 /\ st' = EmptyEmb
                /\ (ci = Len(Cases)) => PrintT("DONE " \o ToString(ci))
Spec == Init /\ [][Next]_<<ci, si, st>>
=============================================================================
