---------------------------- MODULE OrderTrace -----------------------------
(***************************************************************************)
(* Validation of recorded behaviours of the real Causet/CausetEvent        *)
(* classes. The file TRACE (ndjson) holds one case per line: a sequence of *)
(* steps with the operation, the relations, members and labels observed    *)
(* afterwards, and the answers to queries. The spec replays every step on  *)
(* the state machine of Histories and judges every answer by its meaning   *)
(* in Order. Each deviation is printed as BAD with case, step and clause;  *)
(* the run continues from the observed state, so the verdict is total.     *)
(***************************************************************************)
EXTENDS Histories, Families, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES ci, si, st

Bit(b, v) == IF b THEN v ELSE 0

(*************************** observed state ********************************)
\* observed snapshot as [E, past, cs]; fut is judged separately
ObsPast(p) == [e \in Range(p.ev) |-> Range(p.past[Idx(p.ev, e)])]
ObsFut(p) == [e \in Range(p.ev) |-> Range(p.fut[Idx(p.ev, e)])]
ObsCs(p) == [c \in {p.cs[k][1] : k \in DOMAIN p.cs} |->
               Range((CHOOSE x \in Range(p.cs) : x[1] = c)[2])]
\* unknown events (id 0) make the snapshot unusable as a relation on E
Clip(E, past) == [e \in E |-> past[e] \cap E]
Obs(p) == LET E == Range(p.ev)
              past == TLCEval(Clip(E, ObsPast(p)))
              cs == TLCEval(ObsCs(p))
          IN [E |-> E, past |-> past, cs |-> [c \in DOMAIN cs |-> cs[c] \cap E]]

(************************ families (C06) ***********************************)
\* new events of the snapshot p compared with the family
FamilyClauses(prev, a, p) ==
  LET new == Range(p.ev) \ prev.E
      past == ObsPast(p)
      lab(e) == p.lab[Idx(p.ev, e)]
      unlabelled == a.fmt = ""
      cs == ObsCs(p)
  IN (IF a.c \notin DOMAIN cs \/ cs[a.c] # new THEN {"family-members"} ELSE {})
     \cup
     (IF a.fam = "simplex"
      THEN LET F == Faces(a.args[1], a.args[2] # 0)
           IN IF \/ Cardinality(new) # Cardinality(F)
                 \/ {lab(e) : e \in new} # {FaceLabel(S) : S \in F}
              THEN {"family-labels"}
              ELSE IF \E S, T \in F :
                        LET e == CHOOSE x \in new : lab(x) = FaceLabel(S)
                            f == CHOOSE x \in new : lab(x) = FaceLabel(T)
                        IN (e \in past[f]) # (S \subseteq T /\ S # T)
                   THEN {"family-order"} ELSE {}
      ELSE LET F == FamPast(a)
               N == DOMAIN F
               ex(x) == IF unlabelled THEN "n:" ELSE a.labs[x]
           IN IF Cardinality(new) # Cardinality(N) \/
                 {lab(e) : e \in new} # {ex(x) : x \in N}
              THEN {"family-labels"}
              ELSE IF unlabelled
              THEN (IF \E b \in [N -> new] :
                         /\ \A x, y \in N : x # y => b[x] # b[y]
                         /\ \A x \in N : past[b[x]] = {b[y] : y \in F[x]}
                    THEN {} ELSE {"family-order"})
              ELSE LET b == TLCEval([x \in N |->
                              CHOOSE e \in new : lab(e) = ex(x)])
                   IN IF \E x \in N : past[b[x]] # {b[y] : y \in F[x]}
                      THEN {"family-order"} ELSE {})

(************************ matrices (C07) ***********************************)
\* [ok, n, past] of a matrix given by rows; square after adding rows
MatrixOrder(rows, cols) ==
  LET n == cols
      r == [i \in 1..n |-> IF i > Len(rows) THEN {}
                           ELSE {j \in 1..n : rows[i][j] # 0}]
      cl == TLCEval(Closure(1..n, r))
  IN [ok |-> Len(rows) <= cols /\ \A i \in 1..n : i \notin cl[i],
      n |-> n, past |-> cl]
MatrixIn(a) ==
  IF a.how \in {"past", "textpast"} THEN MatrixOrder(a.rows, a.cols)
  ELSE IF Len(a.rows) < a.cols
       THEN [ok |-> FALSE, n |-> 0, past |-> <<>>]
       ELSE MatrixOrder([j \in 1..a.cols |->
                           [i \in 1..Len(a.rows) |-> a.rows[i][j]]],
                        Len(a.rows))
MatrixClauses(prev, a, step) ==
  LET m == TLCEval(MatrixIn(a))
      p == step.post
      k == Cardinality(prev.E)
      new == Range(p.ev) \ prev.E
      past == ObsPast(p)
      fut == ObsFut(p)
  IN IF ~m.ok THEN (IF step.err = "ValueError" THEN {} ELSE {"matrix-reject"})
     ELSE IF step.err # "" THEN {"matrix-error"}
     ELSE IF new # {k + i : i \in 1..m.n} THEN {"matrix-size"}
     ELSE (IF \E i \in 1..m.n : past[k + i] # {k + j : j \in m.past[i]}
           THEN {"matrix-past"} ELSE {})
          \cup
          (IF \E i \in 1..m.n :
                fut[k + i] # {k + j : j \in {x \in 1..m.n : i \in m.past[x]}}
           THEN {"matrix-future"} ELSE {})
          \cup
          (IF ObsCs(p)[a.c] # new THEN {"matrix-members"} ELSE {})

(************************ documented effect of every operation *************)
\* Pre: the operation is in the domain in which its effect is documented
Pre(s, a) ==
  CASE a.op = "create" -> CanCreate(s, a.id, Range(a.past), Range(a.future))
    [] a.op = "merge" -> CanMerge(s, Range(a.p), Range(a.f))
    [] a.op = "causet" -> Range(a.s) \subseteq s.E
    [] a.op \in {"add", "discard"} ->
         a.c \in DOMAIN s.cs /\ Range(a.s) \subseteq s.E
    [] a.op \in {"linkc", "unlinkc"} -> a.c \in DOMAIN s.cs
    [] a.op \in {"disjoin", "link", "unlink", "touch", "relabel"} -> a.e \in s.E
    [] a.op \in {"family", "frommatrix", "nop"} -> TRUE
Eff(s, a) ==
  CASE a.op = "create" -> DoCreate(s, a.id, Range(a.past), Range(a.future))
    [] a.op = "merge" -> DoMerge(s, a.c, Range(a.p), Range(a.f), a.disjoint)
    [] a.op = "causet" -> DoCauset(s, a.c, Range(a.s))
    [] a.op = "add" -> DoAdd(s, a.c, Range(a.s))
    [] a.op = "discard" -> DoDiscard(s, a.c, Range(a.s))
    [] a.op = "disjoin" -> DoDisjoin(s, a.e)
    [] OTHER -> s

Generated(a) == a.op \in {"family", "frommatrix"}

HlClauses(a, p, m) ==
  LET hl(e) == p.hl[Idx(p.ev, e)]
  IN CASE a.op = "link" -> IF hl(a.e) THEN {} ELSE {"link-flag"}
       [] a.op = "unlink" -> IF hl(a.e) THEN {"unlink-flag"} ELSE {}
       [] a.op = "linkc" -> IF \A e \in m.cs[a.c] : hl(e) THEN {}
                            ELSE {"link-flag"}
       [] a.op = "unlinkc" -> IF \E e \in m.cs[a.c] : hl(e)
                              THEN {"unlink-flag"} ELSE {}
       [] a.op \in {"add", "discard"} ->
            IF a.unlink /\ \E e \in m.cs[a.c] : hl(e) THEN {"unlink-flag"}
            ELSE {}
       [] OTHER -> {}

StateClauses(s, step) ==
  LET a == step.act
      p == step.post
      past == TLCEval(ObsPast(p))
      fut == TLCEval(ObsFut(p))
      E == Range(p.ev)
  IN (IF \E e \in E : 0 \in past[e] \cup fut[e] THEN {"foreign-event"} ELSE {})
     \cup (IF \E e \in E : e \in past[e] THEN {"irreflexive"} ELSE {})
     \cup (IF \E e \in E : \E q \in past[e] \cap E : e \in past[q]
           THEN {"antisymmetric"} ELSE {})
     \cup (IF \E e \in E : \E q \in past[e] \cap E : ~(past[q] \subseteq past[e])
           THEN {"transitive"} ELSE {})
     \cup (IF \E e, f \in E : (e \in past[f]) # (f \in fut[e])
           THEN {"both-ends"} ELSE {})
     \cup
     (IF Generated(a)
      THEN (IF a.op = "family"
            THEN IF step.err # "" THEN {"family-error"}
                 ELSE FamilyClauses(s, a, p)
            ELSE MatrixClauses(s, a, step))
      ELSE LET x == TLCEval(Eff(s, a))
           IN (IF step.err # "" THEN {"op-error"} ELSE {})
              \cup (IF E # x.E THEN {"events"} ELSE
                    IF past # x.past THEN {"relation"} ELSE {})
              \cup (IF ObsCs(p) # x.cs THEN {"members"} ELSE {})
              \cup (IF step.err = "" THEN HlClauses(a, p, x) ELSE {}))

(************************ answers to queries *******************************)
SetEq(seq, S) == NoDup(seq) /\ Range(seq) = S
Ascending(seq) == seq

RelBits(O, x, y) ==
  Bit(Lt(O, x, y), 1) + Bit(Le(O, x, y), 2) + Bit(Lt(O, y, x), 4)
  + Bit(Le(O, y, x), 8) + Bit(Related(O, x, y) \/ x = y, 16)
  + Bit(Spacelike(O, x, y), 32)
LinkBits(O, x, y) ==
  Bit(y \in O.lp[x], 1) + Bit(y \in O.lf[x], 2)
  + Bit(y \in O.lp[x] \cup O.lf[x], 4) + Bit(x \in O.lp[y], 8)

SetsEq(r, expected) ==
  /\ Len(r) = Len(expected)
  /\ \A k \in DOMAIN r : SetEq(r[k], expected[k])

PathLenOk(m, q, ps) ==
  CASE m \in {"dflt", "any"} -> ps
    [] m = "int" -> {p \in ps : Len(p) = q.lo}
    [] m = "range" -> {p \in ps : Len(p) >= q.lo /\ Len(p) <= q.hi}
    [] m = "min" -> {p \in ps : \A p2 \in ps : Len(p) <= Len(p2)}
    [] m \in {"max", "timegeo"} -> {p \in ps : \A p2 \in ps : Len(p) >= Len(p2)}

\* labels are compared through their rank in the list q.labord (label order)
OptSet(q, all) == IF q.none THEN all ELSE Range(q.s)

QOk(O, m, p, q) ==
  LET n == Len(p.ev)
      ev == p.ev
      r == q.r
      lab(e) == p.lab[Idx(ev, e)]
  IN
  CASE q.o = "rel" ->
         \A i, j \in 1..n : r[i][j] = RelBits(O, ev[i], ev[j])
    [] q.o = "cones" ->
         \A i \in 1..n :
           LET e == ev[i] P == O.past[e] F == O.fut[e] IN
           /\ SetsEq(r[i].s, <<P, F, P \cup {e} \cup F, P \cup {e}, F \cup {e}>>)
           /\ r[i].n = <<Cardinality(P), Cardinality(F),
                         Cardinality(P) + Cardinality(F) + 1>>
    [] q.o = "spacelike" ->
         \A i \in 1..n :
           LET X == {x \in Range(q.s) : Spacelike(O, x, ev[i])} IN
           SetEq(r[i].s, X) /\ r[i].n = Cardinality(X)
    [] q.o = "lk" ->
         (CASE q.m = "LinkPast" -> SetEq(r.s, O.lp[q.e])
            [] q.m = "LinkFuture" -> SetEq(r.s, O.lf[q.e])
            [] q.m = "LinkCone" -> SetEq(r.s, O.lp[q.e] \cup O.lf[q.e])
            [] q.m = "LinkPastCard" -> r.n = Cardinality(O.lp[q.e])
            [] q.m = "LinkFutureCard" -> r.n = Cardinality(O.lf[q.e])
            [] q.m = "LinkConeCard" ->
                 r.n = Cardinality(O.lp[q.e]) + Cardinality(O.lf[q.e])
            [] q.m = "isPastLink" -> r.n = Bit(q.f \in O.lp[q.e], 1)
            [] q.m = "isFutureLink" -> r.n = Bit(q.f \in O.lf[q.e], 1)
            [] q.m = "isLinkedTo" ->
                 r.n = Bit(q.f \in O.lp[q.e] \cup O.lf[q.e], 1)
            [] q.m = "isLink" -> Lt(O, q.e, q.f) =>
                 r.n = Bit(q.f \in O.lf[q.e], 1))
    [] q.o = "links" ->
         \A i \in 1..n :
           LET e == ev[i] IN
           /\ SetsEq(r[i].s, <<O.lp[e], O.lf[e], O.lp[e] \cup O.lf[e]>>)
           /\ r[i].n = <<Cardinality(O.lp[e]), Cardinality(O.lf[e]),
                         Cardinality(O.lp[e]) + Cardinality(O.lf[e])>>
    [] q.o = "islink" ->
         \A i, j \in 1..n : r[i][j] = LinkBits(O, ev[i], ev[j])
    [] q.o = "linkcount" ->
         LET C == m.cs[q.c]
             cnt(S) == Cardinality({<<x, y>> \in S \X S : x \in O.lp[y]})
         IN r = <<cnt(C), cnt(Range(q.s)), cnt(Range(q.s))>>
    [] q.o = "member" ->
         LET C == m.cs[q.c] IN
         /\ \A i \in 1..n : r.in[i] = (ev[i] \in C)
         /\ SetEq(r.iter, C)
         /\ r.n = <<Cardinality(C), Cardinality(C)>>
    [] q.o = "setops" ->
         LET C == m.cs[q.c]
             X == IF q.k = "other" THEN m.cs[q.d] ELSE Range(q.s)
             sym == (C \ X) \cup (X \ C)
         IN SetsEq(r, IF q.k = "dict"
                      THEN <<C \ X, C \cup X, C \cap X, sym,
                             C \ X, C \cup X, C \cap X, sym>>
                      ELSE <<C \ X, X \ C, C \cup X, C \cup X, C \cap X,
                             C \cap X, sym, sym, C \ X, C \cup X, C \cap X,
                             sym>>)
    [] q.o = "find" ->
         LET C == m.cs[q.c]
             with(L) == {e \in C : lab(e) \in L}
         IN /\ SetEq(r.any, with(Range(q.labs)))
            /\ SetEq(r.all, with(Range(q.labs)))
            /\ \A k \in DOMAIN q.labs :
                 LET W == with({q.labs[k]}) IN
                 IF W = {} THEN r.find[k] = -1 ELSE r.find[k] \in W
    [] q.o = "region" ->
         LET S == Range(q.s)
             R(d, pr, is) == RegionOf(O, S, d, pr, is)
         IN SetsEq(r,
              <<R("past", FALSE, FALSE), R("past", FALSE, TRUE),
                R("past", TRUE, FALSE), R("past", TRUE, TRUE),
                R("future", FALSE, FALSE), R("future", FALSE, TRUE),
                R("future", TRUE, FALSE), R("future", TRUE, TRUE),
                R("cone", FALSE, FALSE), R("cone", FALSE, TRUE),
                R("cone", TRUE, FALSE), R("cone", TRUE, TRUE)>>)
    [] q.o = "spaceto" ->
         SetEq(r, {x \in m.cs[q.c] : \A y \in Range(q.s) : Spacelike(O, x, y)})
    [] q.o = "inf" ->
         LET C == m.cs[q.c]
             X == <<{e \in C : O.past[e] = {}}, {e \in C : O.fut[e] = {}},
                    Minimal(O, Range(q.s)), Maximal(O, Range(q.s))>>
         IN SetsEq(r.s, X) /\ r.n = [k \in 1..4 |-> Cardinality(X[k])]
    [] q.o = "interval" ->
         \A k \in DOMAIN q.pairs :
           LET a == q.pairs[k][1]
               b == q.pairs[k][2]
               I == Interval(O, a, b, TRUE)
               X == Interval(O, a, b, FALSE)
               P == Perimetral(O, a, b)
               N == Internal(O, a, b)
           IN /\ SetsEq(r[k].s, <<I, I, X, P, N>>)
              /\ r[k].n = <<Cardinality(I), Cardinality(I), Cardinality(X),
                            Cardinality(P), Cardinality(N)>>
    [] q.o = "chain" ->
         LET S == IF q.k = "none" THEN m.cs[q.c] ELSE Range(q.s)
         IN r = <<IsChain(O, S), IsAntichain(O, S), IsPath(O, S)>>
    [] q.o = "paths" /\ q.m = "bad" ->  \* rejected
         Le(O, q.a, q.b) => r = <<<<0>>>>
    [] q.o = "paths" /\ q.m # "bad" ->
         LET ps == Paths(O, q.a, q.b) IN
         /\ NoDup(r) /\ Range(r) = PathLenOk(q.m, q, ps)
    [] q.o = "rank" ->
         \A i, j \in 1..n : r[i][j] = Rank(O, ev[i], ev[j])
    [] q.o = "ranks" ->
         SetEq(r, RanksOf(O, Range(q.s), q.lo, IF q.dflt THEN q.lo ELSE q.hi))
    [] q.o = "ranknums" ->
         r = [k \in DOMAIN q.s |->
                RankNum(O, q.s[k], Range(q.s), IF q.rev THEN "past" ELSE "future")]
    [] q.o = "layers" ->
         SetEq(r, LayersOf(O, Range(q.s), q.lo, IF q.dflt THEN q.lo ELSE q.hi))
    [] q.o = "layernums" ->
         r = [k \in DOMAIN q.s |->
                LayerNum(O, q.s[k], Range(q.s), IF q.rev THEN "past" ELSE "future")]
    [] q.o = "layered" ->
         SetsEq(r, Peel(O, OptSet(q, m.cs[q.c]), q.rev))
    [] q.o = "sortc" ->
         LET S == OptSet(q, m.cs[q.c]) IN
         /\ SetEq(r, S)
         /\ \A i, j \in DOMAIN r : i < j =>
              IF q.rev THEN ~Lt(O, r[i], r[j]) ELSE ~Lt(O, r[j], r[i])
    [] q.o = "sortl" ->
         LET S == OptSet(q, m.cs[q.c])
             \* labels without order (missing) are not constrained
             pos(e) == Idx(q.labord, lab(e))
         IN /\ SetEq(r, S)
            /\ \A i, j \in DOMAIN r :
                 (i < j /\ lab(r[i]) # "n:" /\ lab(r[j]) # "n:") =>
                   IF q.rev THEN pos(r[i]) >= pos(r[j])
                            ELSE pos(r[i]) <= pos(r[j])
    [] q.o = "disjoint" ->
         LET K == Components(O, OptSet(q, m.cs[q.c])) IN
         /\ \A k \in DOMAIN r.s : NoDup(r.s[k])
         /\ Len(r.s) = Cardinality(K)
         /\ {Range(r.s[k]) : k \in DOMAIN r.s} = K
         /\ r.b = (Cardinality(K) > 1)
    [] q.o = "central" ->
         /\ NoDup(r)
         /\ IsCentralAntichain(O, m.cs[q.c], Range(r),
                               IF q.e = 0 THEN 0 ELSE Reference(O, q.e))
         /\ q.e # 0 /\ q.e \in m.cs[q.c] => q.e \in Range(r)
    [] q.o = "smallest" ->
         r = SmallestInterval(O, q.a, q.b,
                IF q.sg THEN Range(q.s) ELSE m.cs[q.c], q.sg,
                Range(q.i), q.ig)
    [] q.o = "smalls" ->
         LET l == Len(q.es)
             S == IF q.sg THEN Range(q.s) ELSE m.cs[q.c]
         IN /\ Len(r) = l
            /\ \A i \in 1..l : Len(r[i]) = l
            /\ \A i, j \in 1..l :
                 r[i][j] = IF i > j THEN r[j][i]
                           ELSE SmallestInterval(O, q.es[i], q.es[j], S, q.sg,
                                                 Range(q.i), q.ig)
    [] q.o = "dist" /\ q.counting \notin {"dflt", "ziczac", "intersection"} ->
         r = <<<<0>>>>  \* rejected
    [] q.o = "dist" /\ q.counting \in {"dflt", "ziczac", "intersection"} ->
         LET D == DistanceMatrix(O, q.s,
                    IF q.counting = "dflt" THEN "ziczac" ELSE q.counting,
                    q.rec # 0)
             l == Len(q.s)
         IN Len(r) = l /\ \A i \in 1..l : Len(r[i]) = l
            /\ \A j \in 1..l : r[i][j] = D[i][j]
    [] q.o = "antipaths" ->
         LET D == TLCEval(DistanceMatrix(O, q.s,
                    IF q.given = "inter" THEN "intersection" ELSE "ziczac",
                    TRUE))
         IN NoDup(r) /\ Range(r) = Antipaths(O, q.s, D, q.a, q.b)
    [] q.o = "matrix" ->
         LET L == r.ord
             k == Len(L)
             A == [i \in 1..k |-> [j \in 1..k |-> Bit(Lt(O, L[j], L[i]), 1)]]
             B == [i \in 1..k |-> [j \in 1..k |-> Bit(L[j] \in O.lp[L[i]], 1)]]
             T(M) == [i \in 1..k |-> [j \in 1..k |-> M[j][i]]]
         IN /\ IF q.none THEN SetEq(L, m.cs[q.c]) ELSE L = q.s
            /\ \A x \in 1..4 : Len(r.m[x]) = k
                 /\ \A i \in 1..k : Len(r.m[x][i]) = k
            /\ \A i \in 1..k : \A j \in 1..k :
                 /\ r.m[1][i][j] = A[i][j] /\ r.m[2][i][j] = A[j][i]
                 /\ r.m[3][i][j] = B[i][j] /\ r.m[4][i][j] = B[j][i]
    [] q.o = "roundtrip" ->
         LET L == r.ord
             rev == q.how \in {"csvfuture", "cross"}
             up(i, j) == IF rev THEN Lt(O, L[i], L[j]) ELSE Lt(O, L[j], L[i])
         IN /\ SetEq(L, m.cs[q.c])
            /\ Len(r.past) = Len(L) /\ Len(r.fut) = Len(L)
            /\ \A i \in DOMAIN L :
                 /\ SetEq(r.past[i], {j \in DOMAIN L : up(i, j)})
                 /\ SetEq(r.fut[i], {j \in DOMAIN L : up(j, i)})
    [] q.o = "repr" -> TRUE
    [] q.o = "copy" ->
         \A i \in 1..n :
           LET e == ev[i] IN
           /\ r[i].new /\ r[i].lab = p.lab[i] /\ ~r[i].emb
           /\ SetsEq(r[i].s, <<O.past[e], O.fut[e]>>)
           /\ SetsEq(r[i].l, <<O.lp[e], O.lf[e]>>)

QClauses(O, m, step) ==
  LET p == step.post
  IN {<<k, IF step.q[k].err # "" THEN "error"
           ELSE IF ~QOk(O, m, p, step.q[k]) THEN "value"
           ELSE "unstable">> :
        k \in {x \in DOMAIN step.q :
                 \/ step.q[x].err # ""
                 \/ ~QOk(O, m, p, step.q[x])}}

Impure(step) ==
  {<<k, "impure">> : k \in {x \in DOMAIN step.q :
      "same" \in DOMAIN step.q[x] /\
      ~(step.q[x].same /\ step.q[x].kept /\ step.q[x].args)}}

(************************ the machine **************************************)
Init == ci = 1 /\ si = 1 /\ st = Empty

Report(c, k, sc, qc) ==
  IF sc = {} /\ qc = {} THEN TRUE
  ELSE PrintT("BAD " \o ToJson([id |-> c.id, step |-> k, state |-> sc,
                                 q |-> qc]))

Next ==
  /\ ci <= Len(Cases)
  /\ LET c == Cases[ci]
         step == c.steps[si]
         o == TLCEval(Obs(step.post))
         O == TLCEval(Ord(o.E, o.past))
         pre == Pre(st, step.act)
     IN /\ IF pre THEN Report(c, si, StateClauses(st, step),
                              QClauses(O, o, step) \cup Impure(step))
           ELSE PrintT("PRE " \o ToJson([id |-> c.id, step |-> si]))
        /\ IF si < Len(c.steps)
           THEN /\ ci' = ci /\ si' = si + 1
                /\ st' = IF step.chg THEN Obs(step.post2) ELSE o
           ELSE /\ ci' = ci + 1 /\ si' = 1 /\ st' = Empty
                /\ (ci = Len(Cases)) => PrintT("DONE " \o ToString(ci))

Spec == Init /\ [][Next]_<<ci, si, st>>
=============================================================================
