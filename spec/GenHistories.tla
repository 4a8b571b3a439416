---------------------------- MODULE GenHistories ----------------------------
(***************************************************************************)
(* The state machine of Histories, closed by a Next action, for model      *)
(* checking and for the generation of behaviours that are replayed on the  *)
(* real code.                                                              *)
(*                                                                         *)
(* Every transition out of every distinct state is printed as the whole    *)
(* behaviour that leads through it ("HIST ..."): `hist' is not part of the *)
(* state (VIEW), so TLC reaches each state once, by a shortest behaviour,  *)
(* and tries every operation from it.                                      *)
(***************************************************************************)
EXTENDS Histories, Json

CONSTANTS N,      \* number of events
          K,      \* number of causet objects (0 or more)
          Touch,  \* link queries that compute the link memory lazily
          Emit    \* whether behaviours are printed

VARIABLES st, lk, hist
vars == <<st, lk, hist>>
View == <<st, lk>>

Log(a) == /\ hist' = Append(hist, a)
          /\ Emit => PrintT("HIST " \o ToJson(hist'))

New == Cardinality(st.E) + 1
CsIds == DOMAIN st.cs
ClosedParts == {S \in SUBSET st.E : S # {} /\ Closed(st, S)}

CreateAct ==
  /\ New <= N
  /\ \E P \in SUBSET st.E, F \in SUBSET st.E :
       /\ CanCreate(st, New, P, F)
       /\ st' = DoCreate(st, New, P, F)
       /\ Log([op |-> "create", id |-> New, past |-> P, future |-> F])
  /\ lk' = lk
LinkAct == \E e \in st.E : /\ lk' = lk \cup {e} /\ st' = st
                           /\ Log([op |-> "link", e |-> e])
UnlinkAct == \E e \in st.E : /\ lk' = lk \ {e} /\ st' = st
                             /\ Log([op |-> "unlink", e |-> e])
TouchAct == \E e \in st.E \ lk, m \in Touch :
              /\ lk' = lk \cup {e} /\ st' = st
              /\ Log([op |-> "touch", e |-> e, m |-> m])
DisjoinAct == \E e \in st.E : /\ lk' = lk \ {e} /\ st' = DoDisjoin(st, e)
                              /\ Log([op |-> "disjoin", e |-> e])
MergeAct ==
  /\ Cardinality(CsIds) < K
  /\ \E P, F \in ClosedParts, d \in BOOLEAN :
       /\ CanMerge(st, P, F)
       /\ st' = DoMerge(st, Cardinality(CsIds) + 1, P, F, d)
       /\ lk' = lk
       /\ Log([op |-> "merge", c |-> Cardinality(CsIds) + 1, p |-> P, f |-> F,
               disjoint |-> d])
CausetAct ==
  /\ Cardinality(CsIds) < K
  /\ \E S \in SUBSET st.E :
       /\ st' = DoCauset(st, Cardinality(CsIds) + 1, S) /\ lk' = lk
       /\ Log([op |-> "causet", c |-> Cardinality(CsIds) + 1, s |-> S])
AddAct == \E c \in CsIds, S \in SUBSET st.E, u \in BOOLEAN :
            /\ st' = DoAdd(st, c, S)
            /\ lk' = IF u THEN lk \ st'.cs[c] ELSE lk
            /\ Log([op |-> "add", c |-> c, s |-> S, unlink |-> u])
DiscardAct == \E c \in CsIds, S \in SUBSET st.E, u \in BOOLEAN :
            /\ st' = DoDiscard(st, c, S)
            /\ lk' = IF u THEN lk \ st'.cs[c] ELSE lk
            /\ Log([op |-> "discard", c |-> c, s |-> S, unlink |-> u])
LinkCAct == \E c \in CsIds : /\ st' = st /\ lk' = lk \cup st.cs[c]
                             /\ Log([op |-> "linkc", c |-> c])
UnlinkCAct == \E c \in CsIds : /\ st' = st /\ lk' = lk \ st.cs[c]
                               /\ Log([op |-> "unlinkc", c |-> c])

Init == st = Empty /\ lk = {} /\ hist = <<>>
Next == \/ CreateAct \/ LinkAct \/ UnlinkAct \/ TouchAct \/ DisjoinAct
        \/ MergeAct \/ CausetAct \/ AddAct \/ DiscardAct \/ LinkCAct
        \/ UnlinkCAct
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
TypeOK == /\ st.E \subseteq 1..N /\ lk \subseteq st.E
          /\ DOMAIN st.past = st.E
          /\ \A c \in CsIds : st.cs[c] \subseteq st.E
OrderInv == IsOrder(st.E, st.past) /\ Antisymmetric(st.E, st.past)
\* the covering relation generates the order
CoverInv == Closure(st.E, LinkPastFn(st.E, st.past)) = st.past
Pairs(s) == {<<x, y>> \in s.E \X s.E : x \in s.past[y]}
\* creation extends the order: no pair of old events is lost, only pairs below
\* the named past and above the named future are new
Monotone ==
  [][LET a == hist'[Len(hist')]
     IN CASE a.op = "create" ->
               /\ Pairs(st) \subseteq Pairs(st')
               /\ \A x, y \in st.E : <<x, y>> \in Pairs(st') \ Pairs(st) =>
                    /\ x \in DownClosure(st, a.past)
                    /\ y \in UpClosure(st, a.future)
          [] a.op = "merge" -> Pairs(st) \subseteq Pairs(st')
          [] a.op = "disjoin" ->
               Pairs(st') = {p \in Pairs(st) : a.e \notin {p[1], p[2]}}
          [] OTHER -> Pairs(st') = Pairs(st)]_vars
\* the causet built from any set is closed, the closure is the smallest
ClosureInv == \A S \in SUBSET st.E :
  LET T == Connected(st, S) IN
  /\ S \subseteq T /\ Closed(st, T)
  /\ \A U \in SUBSET st.E : (S \subseteq U /\ Closed(st, U)) => T \subseteq U
=============================================================================
