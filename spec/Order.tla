------------------------------- MODULE Order -------------------------------
(***************************************************************************)
(* Finite (partial) orders as used by causal sets.                         *)
(*                                                                         *)
(* An order is given by a finite set of events E (natural numbers) and the *)
(* function `past' that maps every event to the set of events before it.   *)
(* Everything a Causet or CausetEvent can be asked is defined here from    *)
(* `past' alone - by its meaning, not by the algorithm of the code.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : y >= x
Abs(x) == IF x < 0 THEN -x ELSE x
SetOf(s) == Range(s)
NoDup(s) == Cardinality(Range(s)) = Len(s)

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0
                 ELSE LET x == CHOOSE y \in S : TRUE
                      IN f[x] + SumOver(f, S \ {x})

(*************************** orders ****************************************)
Irreflexive(E, past) == \A e \in E : e \notin past[e]
Antisymmetric(E, past) == \A e \in E : \A p \in past[e] : e \notin past[p]
Transitive(E, past) == \A e \in E : \A p \in past[e] : past[p] \subseteq past[e]
IsOrder(E, past) == /\ \A e \in E : past[e] \subseteq E
                    /\ Irreflexive(E, past)
                    /\ Transitive(E, past)

FutureFn(E, past) == [e \in E |-> {f \in E : e \in past[f]}]
\* covering relation
LinkPastFn(E, past) ==
  [e \in E |-> {p \in past[e] : ~ \E x \in past[e] : p \in past[x]}]
LinkFutureFn(E, lp) == [e \in E |-> {f \in E : e \in lp[f]}]

\* The record of all derived relations. It is computed once per state.
Ord(E, past) ==
  LET fut == TLCEval(FutureFn(E, past))
      lp  == TLCEval(LinkPastFn(E, past))
      lf  == TLCEval(LinkFutureFn(E, lp))
  IN [E |-> E, past |-> past, fut |-> fut, lp |-> lp, lf |-> lf]

\* transitive closure of an arbitrary relation, given as past function
RECURSIVE CloseStep(_, _, _)
CloseStep(E, r, todo) ==
  IF todo = {} THEN r
  ELSE LET k == CHOOSE x \in todo : TRUE
       IN CloseStep(E, TLCEval([e \in E |-> IF k \in r[e] THEN r[e] \cup r[k]
                                                         ELSE r[e]]),
                    todo \ {k})
Closure(E, r) == CloseStep(E, r, E)

(************************** regions ****************************************)
Lt(O, a, b) == a \in O.past[b]
Le(O, a, b) == a = b \/ a \in O.past[b]
Related(O, a, b) == Lt(O, a, b) \/ Lt(O, b, a)
Spacelike(O, a, b) == a # b /\ ~Related(O, a, b)
Cone(O, e) == O.past[e] \cup {e} \cup O.fut[e]
PastOf(O, S) == UNION {O.past[e] : e \in S}
FutureOf(O, S) == UNION {O.fut[e] : e \in S}
Isect(SS) == IF SS = {} THEN {} ELSE {x \in UNION SS : \A T \in SS : x \in T}
RegionOf(O, S, dir, present, intersect) ==
  LET part(e) == (CASE dir = "past" -> O.past[e]
                    [] dir = "future" -> O.fut[e]
                    [] dir = "cone" -> O.past[e] \cup O.fut[e])
                 \cup (IF present THEN {e} ELSE {})
  IN IF intersect THEN Isect({part(e) : e \in S})
                  ELSE UNION {part(e) : e \in S}
Between(O, a, b) == O.fut[a] \cap O.past[b]
Interval(O, a, b, boundary) ==
  IF ~Le(O, a, b) THEN {}
  ELSE IF a = b THEN {a}
  ELSE Between(O, a, b) \cup (IF boundary THEN {a, b} ELSE {})
IntervalCard(O, a, b) == Cardinality(Interval(O, a, b, TRUE))
Perimetral(O, a, b) == IF Lt(O, a, b) THEN O.lf[a] \cap O.lp[b] ELSE {}
Internal(O, a, b) == IF Lt(O, a, b) THEN Between(O, a, b) \ Perimetral(O, a, b)
                     ELSE {}
Minimal(O, S) == {e \in S : O.past[e] \cap S = {}}
Maximal(O, S) == {e \in S : O.fut[e] \cap S = {}}
IsChain(O, S) == \A a, b \in S : a = b \/ Related(O, a, b)
IsAntichain(O, S) == \A a, b \in S : ~Related(O, a, b)
\* a non-empty chain whose consecutive events are linked in the causal set
IsPath(O, S) == /\ S # {} /\ IsChain(O, S)
                /\ \A a, b \in S : (Lt(O, a, b) /\ Between(O, a, b) \cap S = {})
                                      => a \in O.lp[b]
Convex(O, S) == \A a, b \in S : Between(O, a, b) \subseteq S
\* closed under all causal relations (what Causet(S) adds up to)
RECURSIVE ConeClosure(_, _)
ConeClosure(O, S) ==
  LET T == S \cup PastOf(O, S) \cup FutureOf(O, S)
  IN IF T = S THEN S ELSE ConeClosure(O, T)
IsClosed(O, S) == ConeClosure(O, S) = S

(*************************** paths and ranks *******************************)
RECURSIVE PathsFrom(_, _, _)
\* all link paths from x to b, as sequences
PathsFrom(O, x, b) ==
  IF x = b THEN {<<b>>}
  ELSE UNION {{<<x>> \o p : p \in PathsFrom(O, y, b)} :
                y \in O.lf[x] \cap (O.past[b] \cup {b})}
Paths(O, a, b) == IF Le(O, a, b) THEN PathsFrom(O, a, b) ELSE {}

INF == -1   \* stands for math.inf in recorded ranks
RECURSIVE RankStep(_, _, _, _)
RankStep(O, front, b, k) ==
  IF b \in front THEN k
  ELSE RankStep(O, UNION {O.lf[x] : x \in front} \cap (O.past[b] \cup {b}), b,
                k + 1)
Rank(O, a, b) == IF Le(O, a, b) THEN RankStep(O, {a}, b, 0) ELSE INF
RankNum(O, e, S, dir) ==
  IF dir = "past"
  THEN LET B == O.fut[e] \cap S
       IN IF B = {} THEN 0 ELSE -Max({Rank(O, e, b) : b \in B})
  ELSE LET A == O.past[e] \cap S
       IN IF A = {} THEN 0 ELSE Max({Rank(O, a, e) : a \in A})
LayerNum(O, e, S, dir) ==
  IF dir = "past"
  THEN LET B == O.fut[e] \cap S
       IN IF B = {} THEN 0 ELSE -(Max({IntervalCard(O, e, b) : b \in B}) - 1)
  ELSE LET A == O.past[e] \cap S
       IN IF A = {} THEN 0 ELSE Max({IntervalCard(O, a, e) : a \in A}) - 1
\* selection of events by number from first to last
Select(O, S, first, last, num(_, _)) ==
  IF S = {} \/ first > last THEN {}
  ELSE (IF first <= 0
        THEN {a \in PastOf(O, S) \cup S :
                LET n == num(a, "past") IN n >= first /\ n <= Min({0, last})}
        ELSE {})
       \cup
       (IF last > 0
        THEN {b \in FutureOf(O, S) \cup S :
                LET n == num(b, "future") IN n >= Max({first, 0}) /\ n <= last}
        ELSE {})
LayersOf(O, S, first, last) ==
  Select(O, S, first, last, LAMBDA e, d : LayerNum(O, e, S, d))
RanksOf(O, S, first, last) ==
  Select(O, S, first, last, LAMBDA e, d : RankNum(O, e, S, d))

\* layers by height: the k-th layer has the events whose longest chain down
\* (within S) has k further events
RECURSIVE Peel(_, _, _)
Peel(O, S, reverse) ==
  IF S = {} THEN <<>>
  ELSE LET m == IF reverse THEN Maximal(O, S) ELSE Minimal(O, S)
       IN <<m>> \o Peel(O, S \ m, reverse)

(*************************** components ************************************)
RECURSIVE GrowIn(_, _, _)
GrowIn(O, T, S) ==
  LET U == T \cup ((PastOf(O, T) \cup FutureOf(O, T)) \cap S)
  IN IF U = T THEN T ELSE GrowIn(O, U, S)
Components(O, S) == {GrowIn(O, {e}, S) : e \in S}

(*************************** central antichain *****************************)
CentralSize(O, x, ref) ==
  Abs(Cardinality(O.past[x]) - Cardinality(O.fut[x]) - ref)
Reference(O, e) == Cardinality(O.past[e]) - Cardinality(O.fut[e])
IsCentralAntichain(O, C, A, ref) ==
  /\ A \subseteq C /\ IsAntichain(O, A)
  /\ \A x \in C \ A : \E y \in A :
        /\ Related(O, x, y)
        /\ CentralSize(O, y, ref) <= CentralSize(O, x, ref)

(************************ antichain distances ******************************)
\* the documented smallest interval cardinality; `searching' may be any set
\* of events and `inter' the set that is intersected with the interval
SmallestInterval(O, a0, b0, searching, sGiven, inter, iGiven) ==
  LET a == IF Lt(O, b0, a0) THEN b0 ELSE a0
      b == IF Lt(O, b0, a0) THEN a0 ELSE b0
      card(X) == Cardinality(IF iGiven THEN X \cap inter ELSE X)
      commonP == O.past[a] \cap O.past[b] \cap searching
      commonF == O.fut[a] \cap O.fut[b] \cap searching
      spacelikeCase ==
        IF commonP = {} /\ commonF = {} THEN 0
        ELSE IF commonP = {} THEN Min({card(O.past[e]) : e \in commonF})
        ELSE IF commonF = {} THEN Min({card(O.fut[e]) : e \in commonP})
        ELSE Min({card(Interval(O, p, f, TRUE)) : p \in commonP, f \in commonF})
  IN IF Le(O, a, b)
     THEN IF ~sGiven \/ (a \in searching /\ b \in searching)
          THEN card(Interval(O, a, b, TRUE))
          ELSE IF a \in searching THEN card(O.fut[a])
          ELSE IF b \in searching THEN card(O.past[b])
          ELSE spacelikeCase
     ELSE spacelikeCase

RECURSIVE CloseDist(_, _, _)
\* add up unit steps: a disconnected pair gets distance k + 1 if one of them
\* is at distance k from a unit neighbour of the other one
CloseDist(D, l, k) ==
  IF k >= l THEN D
  ELSE CloseDist(TLCEval(
         [i \in 1..l |-> TLCEval([j \in 1..l |->
            IF D[i][j] < 0 /\ \E m \in 1..l :
                 \/ D[i][m] = k /\ D[j][m] = 1
                 \/ D[j][m] = k /\ D[i][m] = 1
            THEN k + 1 ELSE D[i][j]])]), l, k + 1)

RECURSIVE WidenDist(_, _, _, _, _, _)
WidenDist(O, ac, D, slice, zz, recursive) ==
  LET l == Len(ac)
      thick == TLCEval(LayersOf(O, slice, -1, 1))
      A == TLCEval(Range(ac))
      direct == TLCEval([i \in 1..l |-> TLCEval([j \in 1..l |->
                  IF i = j \/ D[i][j] >= 1 THEN D[i][j]
                  ELSE LET d == SmallestInterval(O, ac[i], ac[j], thick, TRUE,
                                                 A, TRUE) - 1
                       IN IF zz THEN Min({1, d}) ELSE d])])
  IN IF Cardinality(thick) <= Cardinality(slice) THEN D
     ELSE IF ~recursive THEN direct
     ELSE WidenDist(O, ac, TLCEval(CloseDist(direct, l, 1)), thick, zz,
                    recursive)
DistanceMatrix(O, ac, counting, recursive) ==
  WidenDist(O, ac, [i \in 1..Len(ac) |-> [j \in 1..Len(ac) |-> 0]],
            Range(ac), counting = "ziczac", recursive)

\* shortest spacelike paths: at every event step to one of its nearest events
\* among the events of the antichain that are closer to the target
RECURSIVE AntipathIdx(_, _, _, _)
AntipathIdx(D, l, i, b) ==
  IF i = b THEN {<<b>>}
  ELSE IF D[i][b] = 1 THEN {<<i, b>>}
  ELSE LET C == {x \in 1..l : D[i][x] > 0 /\ D[b][x] >= 0 /\ D[b][x] < D[i][b]}
           near == Min({D[i][x] : x \in C})
           N == {x \in C : D[i][x] = near}
           close == Min({D[b][x] : x \in N})
       IN UNION {{<<i>> \o p : p \in AntipathIdx(D, l, x, b)} :
                   x \in {y \in N : D[b][y] = close}}
Antipaths(O, ac, D, a, b) ==
  IF a = b THEN (IF a \in Range(ac) THEN {<<a>>} ELSE {})
  ELSE IF ~Spacelike(O, a, b) \/ a \notin Range(ac) \/ b \notin Range(ac)
  THEN {}
  ELSE LET l == Len(ac)
           i == CHOOSE k \in 1..l : ac[k] = a
           j == CHOOSE k \in 1..l : ac[k] = b
       IN IF D[i][j] <= 0 THEN {}
          ELSE {[k \in DOMAIN p |-> ac[p[k]]] : p \in AntipathIdx(D, l, i, j)}
=============================================================================
