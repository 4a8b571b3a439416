----------------------------- MODULE LinkMemory -----------------------------
(***************************************************************************)
(* The link memory of CausetEvent at the level of the implementation: the  *)
(* four sets _prec, _succ, _lprec and _lsucc of every event and the loops  *)
(* of the methods that maintain them, one micro step per loop iteration,   *)
(* with the iteration order of Python sets left open. Whenever no method   *)
(* is running, the memory of every linked event has to be the covering     *)
(* relation (C03), the relation has to be an order with both ends agreeing *)
(* (C01), and disjoin has to remove the event only (C04).                  *)
(*                                                                         *)
(* Relate, Repair and Relink describe variants of the methods: all TRUE is *)
(* the code; FALSE gives the faulty algorithms found in the pinned commit. *)
(***************************************************************************)
EXTENDS Order

CONSTANTS N, Relate, Repair, Relink, Ops

VARIABLES E, prec, succ, lk, lprec, lsucc, task, ghost
vars == <<E, prec, succ, lk, lprec, lsucc, task, ghost>>
Idle == [k |-> "idle"]

IsLink(a, b) == succ[a] \cap prec[b] = {}
With(f, x, S) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN S ELSE f[y]]

\* _addToFuture / _addToPast as state functions on [p, s, lp, ls]
AddF(m, a, f) ==
  IF f \in m.s[a] THEN m
  ELSE [m EXCEPT
          !.ls[a] = IF a \in lk /\ m.s[a] \cap m.p[f] = {}
                    THEN (@ \ m.s[f]) \cup {f} ELSE @,
          !.s[a] = @ \cup {f}]
AddP(m, a, q) ==
  IF q \in m.p[a] THEN m
  ELSE [m EXCEPT
          !.lp[a] = IF a \in lk /\ m.s[q] \cap m.p[a] = {}
                    THEN (@ \ m.p[q]) \cup {q} ELSE @,
          !.p[a] = @ \cup {q}]
\* _discard
Disc(m, a, x) ==
  IF x \in m.p[a]
  THEN LET p2 == [m.p EXCEPT ![a] = @ \ {x}]
       IN [m EXCEPT !.p = p2,
             !.lp[a] = IF a \in lk /\ x \in @
                       THEN (@ \cup (IF Repair THEN
                              {e \in p2[x] : m.s[e] \cap p2[a] = {}} ELSE {}))
                            \ {x}
                       ELSE @]
  ELSE IF x \in m.s[a]
  THEN LET s2 == [m.s EXCEPT ![a] = @ \ {x}]
       IN [m EXCEPT !.s = s2,
             !.ls[a] = IF a \in lk /\ x \in @
                       THEN (@ \cup (IF Repair THEN
                              {e \in s2[x] : s2[a] \cap m.p[e] = {}} ELSE {}))
                            \ {x}
                       ELSE @]
  ELSE m
Mem == [p |-> prec, s |-> succ, lp |-> lprec, ls |-> lsucc]
Set(m) == prec' = m.p /\ succ' = m.s /\ lprec' = m.lp /\ lsucc' = m.ls
LinkP(p, s, e) == {x \in p[e] : s[x] \cap p[e] = {}}
LinkS(p, s, e) == {x \in s[e] : s[e] \cap p[x] = {}}

(* ------------------------------ __init__ -------------------------------- *)
Begin(op) == task = Idle /\ op \in Ops
Create ==
  /\ Begin("create")
  /\ Cardinality(E) < N
  /\ LET e == Cardinality(E) + 1 IN
     \E P \in SUBSET E, F \in SUBSET E :
       LET D == P \cup UNION {prec[x] : x \in P}
           U == F \cup UNION {succ[x] : x \in F}
       IN /\ D \cap U = {}
          /\ E' = E \cup {e}
          /\ prec' = With(prec, e, D) /\ succ' = With(succ, e, U)
          /\ lprec' = With(lprec, e, {}) /\ lsucc' = With(lsucc, e, {})
          /\ task' = [k |-> "createP", e |-> e, todo |-> D]
          /\ ghost' = [k |-> "create", D |-> D, U |-> U, e |-> e, past |-> prec]
  /\ UNCHANGED lk
CreateP ==
  /\ task.k = "createP"
  /\ IF task.todo = {}
     THEN task' = [k |-> "createF", e |-> task.e, todo |-> succ[task.e]]
          /\ UNCHANGED <<prec, succ, lprec, lsucc>>
     ELSE \E x \in task.todo : Set(AddF(Mem, x, task.e))
                               /\ task' = [task EXCEPT !.todo = @ \ {x}]
  /\ UNCHANGED <<E, lk, ghost>>
CreateF ==
  /\ task.k = "createF"
  /\ IF task.todo = {}
     THEN task' = (IF Relate
                   THEN [k |-> "createX", e |-> task.e, cur |-> 0,
                         todo |-> prec[task.e], in |-> {}]
                   ELSE Idle)
          /\ UNCHANGED <<prec, succ, lprec, lsucc>>
     ELSE \E x \in task.todo : Set(AddP(Mem, x, task.e))
                               /\ task' = [task EXCEPT !.todo = @ \ {x}]
  /\ UNCHANGED <<E, lk, ghost>>
\* for p in prec: for f in succ: ...; then p._lsucc -= succ
CreateX ==
  /\ task.k = "createX"
  /\ IF task.cur = 0
     THEN IF task.todo = {}
          THEN /\ task' = [k |-> "createC", e |-> task.e,
                           todo |-> succ[task.e]]
               /\ UNCHANGED <<prec, succ, lprec, lsucc>>
          ELSE /\ \E x \in task.todo :
                    task' = [task EXCEPT !.cur = x, !.todo = @ \ {x},
                                         !.in = succ[task.e]]
               /\ UNCHANGED <<prec, succ, lprec, lsucc>>
     ELSE IF task.in = {}
     THEN /\ lsucc' = [lsucc EXCEPT ![task.cur] =
                         IF task.cur \in lk THEN @ \ succ[task.e] ELSE @]
          /\ task' = [task EXCEPT !.cur = 0]
          /\ UNCHANGED <<prec, succ, lprec>>
     ELSE \E f \in task.in :
            /\ Set(AddP(AddF(Mem, task.cur, f), f, task.cur))
            /\ task' = [task EXCEPT !.in = @ \ {f}]
  /\ UNCHANGED <<E, lk, ghost>>
CreateC ==
  /\ task.k = "createC"
  /\ lprec' = [x \in E |-> IF x \in task.todo \cap lk
                           THEN lprec[x] \ prec[task.e] ELSE lprec[x]]
  /\ task' = Idle
  /\ UNCHANGED <<E, prec, succ, lk, lsucc, ghost>>

(* ------------------------------ link, unlink ---------------------------- *)
Link == /\ Begin("link")
        /\ \E e \in E :
             /\ lprec' = [lprec EXCEPT ![e] = LinkP(prec, succ, e)]
             /\ lsucc' = [lsucc EXCEPT ![e] = LinkS(prec, succ, e)]
             /\ lk' = lk \cup {e}
        /\ ghost' = [k |-> "same", past |-> prec]
        /\ UNCHANGED <<E, prec, succ, task>>
Unlink == /\ Begin("unlink")
          /\ \E e \in lk : lk' = lk \ {e}
          /\ ghost' = [k |-> "same", past |-> prec]
          /\ UNCHANGED <<E, prec, succ, lprec, lsucc, task>>
\* Causet.link of any member set
LinkC ==
  /\ Begin("linkc")
  /\ \E C \in SUBSET E :
       /\ lsucc' = [e \in E |-> IF e \in C
                      THEN {f \in succ[e] \ C : IsLink(e, f)} ELSE lsucc[e]]
       /\ lk' = lk \cup C
       /\ task' = [k |-> "linkc", C |-> C, todo |-> C]
  /\ ghost' = [k |-> "same", past |-> prec]
  /\ UNCHANGED <<E, prec, succ, lprec>>
LinkCStep ==
  /\ task.k = "linkc"
  /\ IF task.todo = {} THEN task' = Idle /\ UNCHANGED <<lprec, lsucc>>
     ELSE \E b \in task.todo :
            LET L == LinkP(prec, succ, b) IN
            /\ lprec' = [lprec EXCEPT ![b] = L]
            /\ lsucc' = [a \in E |-> IF a \in L \cap task.C
                                     THEN lsucc[a] \cup {b} ELSE lsucc[a]]
            /\ task' = [task EXCEPT !.todo = @ \ {b}]
  /\ UNCHANGED <<E, prec, succ, lk, ghost>>

(* ------------------------------ disjoin --------------------------------- *)
Disjoin ==
  /\ Begin("disjoin")
  /\ \E e \in E :
       /\ lk' = lk \ {e}
       /\ task' = [k |-> "disjoin", e |-> e, phase |-> 1,
                   todo |-> prec[e] \cup succ[e]]
       /\ ghost' = [k |-> "disjoin", e |-> e, past |-> prec]
  /\ UNCHANGED <<E, prec, succ, lprec, lsucc>>
DisjoinStep ==
  /\ task.k = "disjoin"
  /\ IF task.todo = {}
     THEN IF task.phase = 1
          THEN /\ prec' = [prec EXCEPT ![task.e] = {}]
               /\ task' = [task EXCEPT !.phase = 2, !.todo = succ[task.e]]
               /\ UNCHANGED <<succ, lprec, lsucc>>
          ELSE /\ succ' = [succ EXCEPT ![task.e] = {}]
               /\ task' = Idle
               /\ UNCHANGED <<prec, lprec, lsucc>>
     ELSE \E x \in task.todo : /\ Set(Disc(Mem, x, task.e))
                               /\ task' = [task EXCEPT !.todo = @ \ {x}]
  /\ UNCHANGED <<E, lk, ghost>>

(* ------------------------------ merge ----------------------------------- *)
ClosedSet(S) == \A e \in S : prec[e] \cup succ[e] \subseteq S
Merge ==
  /\ Begin("merge")
  /\ \E P \in SUBSET E, F \in SUBSET E :
       /\ P # {} /\ F # {} /\ P \cap F = {} /\ ClosedSet(P) /\ ClosedSet(F)
       /\ task' = [k |-> "merge", P |-> P, F |-> F, todo |-> P \X F]
       /\ ghost' = [k |-> "merge", P |-> P, F |-> F, past |-> prec]
  /\ UNCHANGED <<E, prec, succ, lk, lprec, lsucc>>
\* the loops over both sets in any order (a superset of the nested order)
MergeStep ==
  /\ task.k = "merge"
  /\ IF task.todo = {}
     THEN /\ task' = Idle
          /\ lprec' = [e \in E |-> IF Relink /\ e \in lk \cap (task.P \cup task.F)
                                   THEN LinkP(prec, succ, e) ELSE lprec[e]]
          /\ lsucc' = [e \in E |-> IF Relink /\ e \in lk \cap (task.P \cup task.F)
                                   THEN LinkS(prec, succ, e) ELSE lsucc[e]]
          /\ UNCHANGED <<prec, succ>>
     ELSE \E x \in task.todo :
            /\ Set(AddP(AddF(Mem, x[1], x[2]), x[2], x[1]))
            /\ task' = [task EXCEPT !.todo = @ \ {x}]
  /\ UNCHANGED <<E, lk, ghost>>

Init == /\ E = {} /\ lk = {} /\ task = Idle
        /\ prec = <<>> /\ succ = <<>> /\ lprec = <<>> /\ lsucc = <<>>
        /\ ghost = [k |-> "same", past |-> <<>>]
Next == \/ Create \/ CreateP \/ CreateF \/ CreateX \/ CreateC
        \/ Link \/ Unlink \/ LinkC \/ LinkCStep
        \/ Disjoin \/ DisjoinStep \/ Merge \/ MergeStep
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
OrderInv == task = Idle => IsOrder(E, prec) /\ succ = FutureFn(E, prec)
LinkInv ==
  task = Idle =>
    LET lp == LinkPastFn(E, prec)
    IN \A e \in lk : /\ lprec[e] = lp[e]
                     /\ lsucc[e] = {f \in E : e \in lp[f]}
\* every method has exactly its documented effect on the relation
EffectInv ==
  task = Idle =>
    CASE ghost.k = "same" -> prec = ghost.past
      [] ghost.k = "create" ->
           prec = [x \in E |-> IF x = ghost.e THEN ghost.D
                               ELSE IF x \in ghost.U
                                    THEN ghost.past[x] \cup {ghost.e} \cup ghost.D
                               ELSE ghost.past[x]]
      [] ghost.k = "disjoin" ->
           prec = [x \in E |-> IF x = ghost.e THEN {}
                               ELSE ghost.past[x] \ {ghost.e}]
      [] ghost.k = "merge" ->
           prec = [x \in E |-> IF x \in ghost.F
                               THEN ghost.past[x] \cup ghost.P
                               ELSE ghost.past[x]]
=============================================================================
