------------------------------- MODULE Posets -------------------------------
(***************************************************************************)
(* Enumerates all naturally labelled orders of up to N events: event k     *)
(* may only have smaller events in its past. Every isomorphism type of     *)
(* finite order of that size occurs. On every one of them the definitions  *)
(* of Order are checked against each other (Theorems).                     *)
(***************************************************************************)
EXTENDS Order, Json
CONSTANTS N, Emit
VARIABLE past
n == Len(past)
DownSets(p) == {S \in SUBSET (1..Len(p)) : \A x \in S : p[x] \subseteq S}
Init == past = <<>>
Next == /\ n < N
        /\ \E S \in DownSets(past) :
             /\ past' = Append(past, S)
             /\ Emit => PrintT("POSET " \o ToJson(past'))
Spec == Init /\ [][Next]_past

Q == 1..n
O == Ord(Q, past)
OrderOK == IsOrder(Q, past) /\ Closure(Q, O.lp) = past

\* intervals and regions
IntervalThm ==
  \A a, b \in Q :
    /\ Lt(O, a, b) => /\ Perimetral(O, a, b) \cup Internal(O, a, b)
                           = Interval(O, a, b, FALSE)
                      /\ Perimetral(O, a, b) \cap Internal(O, a, b) = {}
                      /\ (Interval(O, a, b, FALSE) = {}) = (a \in O.lp[b])
                      /\ Convex(O, Interval(O, a, b, TRUE))
    /\ Cardinality({x \in {1, 2, 3, 4} :
          (x = 1 /\ Lt(O, a, b)) \/ (x = 2 /\ Lt(O, b, a)) \/
          (x = 3 /\ a = b) \/ (x = 4 /\ Spacelike(O, a, b))}) = 1
\* paths, ranks and layers
PathThm ==
  \A a, b \in Q :
    LET ps == Paths(O, a, b) IN
    /\ (ps # {}) = Le(O, a, b)
    /\ \A p \in ps : /\ p[1] = a /\ p[Len(p)] = b
                     /\ IsPath(O, Range(p)) /\ NoDup(p)
                     /\ Range(p) \subseteq Interval(O, a, b, TRUE)
    /\ Rank(O, a, b) = IF ps = {} THEN INF
                       ELSE Min({Len(p) : p \in ps}) - 1
    /\ \A S \in SUBSET Q :
         ((\E p \in ps : Range(p) = S) <=>
            (IsPath(O, S) /\ Minimal(O, S) = {a} /\ Maximal(O, S) = {b}))
LayerThm ==
  \A S \in SUBSET Q :
    LET P == Peel(O, S, FALSE) R == Peel(O, S, TRUE) IN
    /\ UNION Range(P) = S /\ UNION Range(R) = S
    /\ Len(P) = Len(R)
    /\ SumOver([k \in DOMAIN P |-> Cardinality(P[k])], DOMAIN P)
         = Cardinality(S)
    /\ \A k \in DOMAIN P : IsAntichain(O, P[k]) /\ IsAntichain(O, R[k])
    /\ LayersOf(O, S, 0, 0)
         = {e \in PastOf(O, S) \cup S :
              \* LayerNumber 0 in the past direction
              O.fut[e] \cap S = {}}
    /\ IsAntichain(O, S) => \A lo, hi \in -2..2 : lo <= hi =>
         LayersOf(O, S, lo, hi) = UNION {LayersOf(O, S, k, k) : k \in lo..hi}
ComponentThm ==
  \A S \in SUBSET Q :
    LET K == Components(O, S) IN
    /\ UNION K = S
    /\ \A X, Y \in K : X # Y => X \cap Y = {} /\
         (\A x \in X, y \in Y : ~Related(O, x, y))
    /\ \A X \in K : \A Z \in SUBSET X : (Z # {} /\ Z # X) =>
         \E x \in Z, y \in X \ Z : Related(O, x, y)
\* a central antichain exists, is maximal, and one can be found greedily
CentralThm ==
  \A ref \in -n..n :
    /\ \E A \in SUBSET Q : IsCentralAntichain(O, Q, A, ref)
    /\ \A A \in SUBSET Q : IsCentralAntichain(O, Q, A, ref) =>
         \A x \in Q \ A : ~IsAntichain(O, A \cup {x})
\* distance matrices are symmetric with zero diagonal; antipaths are sound
DistanceThm ==
  \A A \in SUBSET Q :
    (IsAntichain(O, A) /\ \A x \in Q \ A : \E y \in A : Related(O, x, y)) =>
      LET s == CHOOSE f \in [1..Cardinality(A) -> A] : Range(f) = A
          l == Len(s)
      IN \A zz \in {"ziczac", "intersection"}, rec \in BOOLEAN :
           LET D == DistanceMatrix(O, s, zz, rec) IN
           /\ \A i, j \in 1..l : D[i][j] = D[j][i] /\ D[i][i] = 0
           /\ rec =>
                \A i, j \in 1..l : i # j =>
                   \A p \in Antipaths(O, s, D, s[i], s[j]) :
                      /\ p[1] = s[i] /\ p[Len(p)] = s[j] /\ NoDup(p)
=============================================================================
