---------------------------- MODULE GenEmbedded -----------------------------
(***************************************************************************)
(* All histories of an embedded causet whose events are taken from a list  *)
(* of points: creation (one or several events at once, related or not),    *)
(* discarding any members and adding events (again), embedding an event    *)
(* anew, relate(). Every transition out of every distinct state is printed *)
(* with a shortest behaviour leading to it.                                *)
(***************************************************************************)
EXTENDS Embedded, Json, TLC

CONSTANTS MM,     \* the spacetimes
          Pts,    \* [spacetime -> points], created in the given order
          N,      \* at most this many events
          More,   \* also adding events and embedding them anew
          Every,  \* prints a history for one out of so many states
          Emit
VARIABLES m, st, lk,
          mv,     \* the events moved since they were last related
          hist
vars == <<m, st, lk, mv, hist>>
View == <<m, st, lk, mv>>

Log(a) == /\ hist' = Append(hist, a)
          /\ (Emit /\ TLCGet("distinct") % Every = 0) =>
               PrintT("HIST " \o ToJson([m |-> m, h |-> hist']))
Used == Len(st.crd)

CreateAct ==
  \E k \in 1..2, r \in BOOLEAN, f \in {<<>>, <<"e", "">>} :
    /\ Used + k <= N
    /\ LET new == [i \in 1..k |-> Pts[m][Used + i]]
       IN /\ st' = DoCreateEmb(m, st, new, f, r)
          /\ Log([op |-> "create", pts |-> new, fmt |-> f, relate |-> r])
    /\ lk' = r
    /\ mv' = IF r THEN mv \ st'.mem ELSE mv
DiscardAct ==
  \E D \in SUBSET st.mem :
    /\ D # {}
    /\ st' = DoDiscardEmb(st, D) /\ lk' = lk /\ mv' = mv
    /\ Log([op |-> "discard", s |-> D])
RelateAct ==
  \E l \in BOOLEAN :
    /\ st' = DoRelateEmb(m, st) /\ lk' = l /\ mv' = mv \ st.mem
    /\ Log([op |-> "relate", link |-> l])

AddAct ==
  \E k \in 0..1, D \in SUBSET ((1..Used) \ st.mem) :
    /\ More /\ hist # <<>> /\ Used + k <= N /\ (k > 0 \/ D # {})
    /\ LET new == [i \in 1..k |-> Pts[m][Used + i]]
       IN /\ st' = DoAddEmb(st, new, D)
          /\ Log([op |-> "add", pts |-> new, s |-> D])
    /\ lk' = lk /\ mv' = mv
\* to the first of the points that are not used for creating events
EmbedAct ==
  \E e \in 1..Used, k \in {N + 1} :
    /\ More
    /\ \A i \in 1..Used : st.crd[i] # Pts[m][k]
    /\ st' = DoEmbedEmb(st, e, Pts[m][k])
    /\ Log([op |-> "embed", e |-> e, pt |-> Pts[m][k]])
    /\ lk' = lk /\ mv' = mv \cup {e}

Init == m \in MM /\ st = EmptyEmb /\ lk = FALSE /\ mv = {} /\ hist = <<>>
Next == (CreateAct \/ DiscardAct \/ RelateAct \/ AddAct \/ EmbedAct) /\ m' = m
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
TypeOK == /\ st.mem \subseteq 1..Used
          /\ st.rel \subseteq (1..Used) \X (1..Used)
OrderInv == /\ \A p \in st.rel : <<p[2], p[1]>> \notin st.rel
            /\ \A p, q \in st.rel : p[2] = q[1] => <<p[1], q[2]>> \in st.rel
\* what is related is causally related; after relate() also the converse
Sound == \A p \in st.rel :
  p[1] \notin mv /\ p[2] \notin mv => Before(m, st.crd[p[1]], st.crd[p[2]])
CompleteAfterRelate ==
  [][hist'[Len(hist')].op = "relate" =>
       /\ MemRel(st') = RelationOf(m, st'.crd, st'.mem)
       /\ \A p \in st'.rel : (p[1] \in st'.mem) = (p[2] \in st'.mem)]_vars
DiscardKeeps ==
  [][hist'[Len(hist')].op = "discard" =>
       /\ MemRel(st') = MemRel(st) \cap (st'.mem \X st'.mem)
       /\ MemLinks(st') = MemLinks(st) \cap (st'.mem \X st'.mem)]_vars
=============================================================================
