----------------------------- MODULE Algorithms -----------------------------
(***************************************************************************)
(* The order algorithms of the implementation, step by step, against the   *)
(* meanings defined in Order: exchange sort, growth of disjoint pieces,    *)
(* greedy central antichain, two-sided ranks, layers by layer numbers,     *)
(* path tests by counting links, path search with pruning, distance        *)
(* matrices with in-place updates. Wherever the code iterates over a set,  *)
(* every order of iteration is explored: by outcome sets, or by a          *)
(* permutation pi of the events.                                           *)
(*                                                                         *)
(* The orders are all naturally labelled ones of N events; if Bounded, a   *)
(* least and a greatest event are added to them.                           *)
(***************************************************************************)
EXTENDS Order
CONSTANTS N, Bounded

VARIABLE past

DownSets(p) == {S \in SUBSET (1..Len(p)) : \A x \in S : p[x] \subseteq S}
Init == past = <<>>
Next == /\ Len(past) < N
        /\ \E S \in DownSets(past) : past' = Append(past, S)
Spec == Init /\ [][Next]_past

Shift(S) == {x + 1 : x \in S}
Whole == IF ~Bounded THEN past
         ELSE LET m == Len(past)
              IN [k \in 1..(m + 2) |->
                    IF k = 1 THEN {} ELSE IF k = m + 2 THEN 1..(m + 1)
                    ELSE Shift(past[k - 1]) \cup {1}]
n == Len(Whole)
Q == 1..n
O == Ord(Q, Whole)
Perms(S) == {f \in [1..Cardinality(S) -> S] : Range(f) = S}
\* the elements of S in the order of pi
SeqBy(S, pi) == SelectSeq(pi, LAMBDA x : x \in S)

(****************************** exchange sort *******************************)
Swap(L, i, j) == [L EXCEPT ![i] = L[j], ![j] = L[i]]
RECURSIVE SortFrom(_, _, _, _)
SortFrom(o, L, i, j) ==
  IF i > Len(L) THEN L
  ELSE IF j >= i THEN SortFrom(o, L, i + 1, 1)
  ELSE SortFrom(o, IF Lt(o, L[i], L[j]) THEN Swap(L, i, j) ELSE L, i, j + 1)
Sort(o, L) == SortFrom(o, L, 1, 1)
Extends(o, L) == \A i, j \in DOMAIN L : Lt(o, L[i], L[j]) => i < j
SortThm ==
  LET o == TLCEval(O)
  IN \A L \in Perms(Q) :
       LET M == Sort(o, L) IN Range(M) = Q /\ Extends(o, M)

(***************************** disjoint pieces ******************************)
RECURSIVE Grow(_, _, _, _)
Grow(o, S, rem, before) ==
  IF before >= Cardinality(S) THEN S
  ELSE Grow(o, (S \cup PastOf(o, S) \cup FutureOf(o, S)) \cap rem, rem,
            Cardinality(S))
RECURSIVE Pieces(_, _)
Pieces(o, rem) ==
  IF rem = {} THEN {{}}
  ELSE UNION {LET D == Grow(o, {x}, rem, 0)
              IN {{D} \cup r : r \in Pieces(o, rem \ D)} : x \in rem}
DisjointThm ==
  LET o == TLCEval(O)
  IN \A S \in SUBSET Q : Pieces(o, S) = {Components(o, S)}

(**************************** central antichain *****************************)
RECURSIVE OneSize(_, _, _)
\* every outcome of going through the events R of one size
OneSize(o, A, R) ==
  IF R = {} THEN {A}
  ELSE UNION {OneSize(o, IF (o.past[x] \cup o.fut[x] \cup {x}) \cap A = {}
                         THEN A \cup {x} ELSE A, R \ {x}) : x \in R}
RECURSIVE AllSizes(_, _, _, _)
AllSizes(o, Acc, sizes, ref) ==
  IF sizes = {} THEN Acc
  ELSE LET s == Min(sizes)
           R == {x \in o.E : CentralSize(o, x, ref) = s}
       IN AllSizes(o, TLCEval(UNION {OneSize(o, A, R) : A \in Acc}),
                   sizes \ {s}, ref)
CentralOutcomes(o, ref) ==
  AllSizes(o, {{}}, {CentralSize(o, x, ref) : x \in o.E}, ref)
\* the accepted results are exactly the ones that some order leads to
CentralGreedyThm ==
  LET o == TLCEval(O)
  IN \A ref \in {0} \cup {Reference(o, e) : e \in Q} :
       CentralOutcomes(o, ref) =
         {A \in SUBSET Q : IsCentralAntichain(o, Q, A, ref)}

(******************************* ranks, layers ******************************)
RECURSIVE RankTwoSided(_, _, _)
RankTwoSided(o, a, b) ==
  IF ~Le(o, a, b) THEN 99
  ELSE IF a = b THEN 0
  ELSE IF b \in o.lf[a] THEN 1
  ELSE IF o.lf[a] \cap o.lp[b] # {} THEN 2
  ELSE Min({RankTwoSided(o, x, y) + 2 : x \in o.lf[a], y \in o.lp[b]})
RankThm ==
  LET o == TLCEval(O)
  IN \A a, b \in Q :
       LET r == RankTwoSided(o, a, b)
       IN (IF r >= 99 THEN INF ELSE r) = Rank(o, a, b)
RECURSIVE LayerSteps(_, _, _, _)
LayerSteps(o, layer, S, step) ==
  IF layer = {} THEN <<>>
  ELSE <<layer>> \o LayerSteps(o, LayersOf(o, layer, step, step) \cap S, S,
                               step)
LayeredThm ==
  LET o == TLCEval(O)
  IN \A S \in SUBSET Q : Convex(o, S) =>
       /\ LayerSteps(o, Minimal(o, S), S, 1) = Peel(o, S, FALSE)
       /\ LayerSteps(o, Maximal(o, S), S, -1) = Peel(o, S, TRUE)

(****************************** chains, paths *******************************)
ChainByCounting(o, S) ==
  \A e \in S : Cardinality(Cone(o, e) \cap S) = Cardinality(S)
PathByCounting(o, S) ==
  IF Cardinality(S) <= 1 THEN Cardinality(S) = 1
  ELSE LET links(e) == Cardinality((o.lp[e] \cup o.lf[e]) \cap S)
       IN /\ ChainByCounting(o, S)
          /\ \A e \in S : links(e) \in 1..2
          /\ Cardinality({e \in S : links(e) = 1}) <= 2
CountingThm ==
  LET o == TLCEval(O)
  IN \A S \in SUBSET Q :
       /\ ChainByCounting(o, S) <=> IsChain(o, S)
       /\ PathByCounting(o, S) <=> IsPath(o, S)
       /\ (\A e \in S : Cardinality(Cone(o, e) \cap S) = 1)
            <=> IsAntichain(o, S)

(******************************* path search ********************************)
\* find: "all", "min" or "max"; st: the limits and the paths found so far
RECURSIVE Find(_, _, _, _, _, _, _), FindEach(_, _, _, _, _, _, _, _)
Find(o, path, b, l, st, find, pi) ==
  LET a == path[Len(path)]
      next == o.lf[a] \cap o.past[b]
      per == next \cap o.lp[b]
      inner == next \ per
      yields == st.min <= l /\ per # {} /\ (find # "max" \/ inner = {})
      ends == SeqBy(per, pi)
      P == IF yields
           THEN st.P \o [k \in DOMAIN ends |-> path \o <<ends[k], b>>]
           ELSE st.P
      mn == IF find = "max" THEN Max({st.min, l}) ELSE st.min
      mx == IF yields /\ find = "min" /\ (l <= st.max \/ st.max = -1)
            THEN l ELSE st.max
  IN IF (yields /\ find = "min") \/ l = mx
     THEN [min |-> IF yields /\ find = "min" THEN st.min ELSE mn,
           max |-> mx, P |-> P]
     ELSE FindEach(o, path, b, l + 1, [min |-> mn, max |-> mx, P |-> P], find,
                   pi, SeqBy(inner, pi))
FindEach(o, path, b, l, st, find, pi, todo) ==
  IF todo = <<>> THEN st
  ELSE FindEach(o, path, b, l,
                TLCEval(Find(o, path \o <<todo[1]>>, b, l, st, find, pi)),
                find, pi, Tail(todo))
\* the paths in the order they are handed out; lo, hi: limits of the length
FoundPaths(o, a, b, find, lo, hi, pi) ==
  LET fits(k) == lo <= k /\ (k <= hi \/ hi = -1)
  IN IF ~Le(o, a, b) THEN <<>>
     ELSE IF a = b THEN IF fits(1) THEN <<<<a>>>> ELSE <<>>
     ELSE IF b \in o.lf[a] THEN IF fits(2) THEN <<<<a, b>>>> ELSE <<>>
     ELSE IF ~(3 <= hi \/ hi = -1) THEN <<>>
     ELSE LET r == TLCEval(Find(o, <<a>>, b, 3,
                                [min |-> lo, max |-> hi, P |-> <<>>], find, pi))
          IN CASE find = "all" -> r.P
               [] find = "min" -> SelectSeq(r.P, LAMBDA p : Len(p) = r.max)
               [] find = "max" -> SelectSeq(r.P, LAMBDA p : Len(p) = r.min)
\* only the order among the events between a and b matters
PathThm ==
  LET o == TLCEval(O)
      all == TLCEval(Paths(o, 1, n))
      lens == {Len(p) : p \in all}
      good(seq, want) == NoDup(seq) /\ Range(seq) = want
  IN Bounded =>
     \A pi \in Perms(Q \ {1, n}) :
       /\ good(FoundPaths(o, 1, n, "all", 0, -1, pi), all)
       /\ good(FoundPaths(o, 1, n, "min", 0, -1, pi),
               {p \in all : Len(p) = Min(lens)})
       /\ good(FoundPaths(o, 1, n, "max", 0, -1, pi),
               {p \in all : Len(p) = Max(lens)})
       /\ \A lo \in 1..n, hi \in 1..n :
            lo <= hi => good(FoundPaths(o, 1, n, "all", lo, hi, pi),
                             {p \in all : Len(p) \in lo..hi})

(**************************** distance matrix *******************************)
\* the loops over k, i, j with updates in place and the early exit when no
\* pair is left that is not connected
RECURSIVE CloseRow(_, _, _, _, _, _)
CloseRow(D, i, todo, conn, k, left) ==
  IF todo = <<>> THEN [D |-> D, left |-> left, done |-> FALSE]
  ELSE LET j == todo[1]
           both == {m \in conn : D[j][m] = 1}
       IN IF both = {} THEN CloseRow(D, i, Tail(todo), conn, k, left)
          ELSE LET d == Min({D[i][m] + D[j][m] : m \in both})
                   E == TLCEval([D EXCEPT ![i][j] = d, ![j][i] = d])
               IN IF left - 2 = 0
                  THEN [D |-> E, left |-> 0, done |-> TRUE]
                  ELSE CloseRow(E, i, Tail(todo), conn, k, left - 2)
RECURSIVE CloseRows(_, _, _, _)
CloseRows(st, i, k, l) ==
  IF st.done \/ k >= l THEN st
  ELSE IF i > l THEN CloseRows(st, 1, k + 1, l)
  ELSE LET idx == [x \in 1..l |-> x]
           D == st.D
       IN CloseRows(TLCEval(CloseRow(D, i,
                      SelectSeq(idx, LAMBDA j : D[i][j] < 0),
                      {m \in 1..l : D[i][m] = k}, k, st.left)), i + 1, k, l)
RECURSIVE MatrixSteps(_, _, _, _, _, _)
MatrixSteps(o, ac, D, slice, zz, recursive) ==
  LET l == Len(ac)
      thick == TLCEval(LayersOf(o, slice, -1, 1))
      A == Range(ac)
      one(i, j) == SmallestInterval(o, ac[i], ac[j], thick, TRUE, A, TRUE) - 1
      E == TLCEval([i \in 1..l |-> TLCEval([j \in 1..l |->
             IF i = j \/ D[i][j] >= 1 THEN D[i][j]
             ELSE LET d == one(Min({i, j}), Max({i, j}))
                  IN IF zz THEN Min({1, d}) ELSE d])])
      left == Cardinality({x \in (1..l) \X (1..l) : E[x[1]][x[2]] < 0})
      st == TLCEval(CloseRows([D |-> E, left |-> left, done |-> FALSE],
                              1, 1, l))
  IN IF Cardinality(thick) <= Cardinality(slice) THEN D
     ELSE IF ~recursive THEN E
     ELSE IF st.done THEN st.D
     ELSE MatrixSteps(o, ac, st.D, thick, zz, recursive)
Zero(l) == [i \in 1..l |-> [j \in 1..l |-> 0]]
MatrixThm ==
  LET o == TLCEval(O)
      idx == [x \in Q |-> x]
      rev == [x \in Q |-> n + 1 - x]
  IN \A S \in SUBSET Q : IsAntichain(o, S) =>
       \A ac \in {SeqBy(S, idx), SeqBy(S, rev)}, zz, rec \in BOOLEAN :
         LET D == TLCEval(MatrixSteps(o, ac, Zero(Len(ac)), S, zz, rec))
         IN /\ D = DistanceMatrix(o, ac, IF zz THEN "ziczac" ELSE "x", rec)
            \* symmetric, zero on the diagonal only where connected
            /\ \A i, j \in DOMAIN ac : D[i][j] = D[j][i]
            /\ \A i \in DOMAIN ac : D[i][i] = 0
=============================================================================
