----------------------------- MODULE Histories -----------------------------
(***************************************************************************)
(* State machine of the causal-set core of the library.                    *)
(*                                                                         *)
(* State: the created events E, the relation `past', the causet objects    *)
(* `cs' (causet id -> member set) and the events with a link memory.       *)
(* Transitions: every mutating public operation of CausetEvent and Causet. *)
(* The operators Do* give the documented effect of every operation on      *)
(* [E, past, cs]; they are used both by the state machine below (model     *)
(* checking, generation of behaviours) and by OrderTrace (validation of    *)
(* what the real code did).                                                *)
(***************************************************************************)
EXTENDS Order

NoCs == [c \in {} |-> {}]
Empty == [E |-> {}, past |-> [e \in {} |-> {}], cs |-> NoCs]
PutCs(cs, c, S) == [k \in DOMAIN cs \cup {c} |-> IF k = c THEN S ELSE cs[k]]

(* ----- creation of an event with named past and future ----------------- *)
DownClosure(st, P) == P \cup UNION {st.past[p] : p \in P}
UpClosure(st, F) == F \cup {x \in st.E : st.past[x] \cap F # {}}
CanCreate(st, e, P, F) ==
  /\ e \notin st.E /\ P \subseteq st.E /\ F \subseteq st.E
  /\ DownClosure(st, P) \cap UpClosure(st, F) = {}
DoCreate(st, e, P, F) ==
  LET D == DownClosure(st, P)
      U == UpClosure(st, F)
  IN [st EXCEPT !.E = @ \cup {e},
        !.past = [x \in st.E \cup {e} |->
                    IF x = e THEN D
                    ELSE IF x \in U THEN st.past[x] \cup {e} \cup D
                    ELSE st.past[x]]]

(* ----- causet objects ---------------------------------------------------- *)
Closed(st, S) == \A e \in S : /\ st.past[e] \subseteq S
                              /\ \A x \in st.E : e \in st.past[x] => x \in S
RECURSIVE Connected(_, _)
Connected(st, S) ==
  LET T == DownClosure(st, S) \cup UpClosure(st, S)
  IN IF T = S THEN S ELSE Connected(st, T)
DoCauset(st, c, S) == [st EXCEPT !.cs = PutCs(@, c, Connected(st, S))]
DoAdd(st, c, S) == [st EXCEPT !.cs[c] = @ \cup S]
DoDiscard(st, c, S) == [st EXCEPT !.cs[c] = @ \ S]

(* ----- merging of two causets that are not related yet ------------------- *)
CanMerge(st, P, F) == /\ P \subseteq st.E /\ F \subseteq st.E
                      /\ P \cap F = {} /\ Closed(st, P) /\ Closed(st, F)
DoMerge(st, c, P, F, disjoint) ==
  [st EXCEPT !.past = IF disjoint THEN @
                      ELSE [x \in st.E |-> IF x \in F THEN st.past[x] \cup P
                                                      ELSE st.past[x]],
             !.cs = PutCs(@, c, P \cup F)]

(* ----- disjoining --------------------------------------------------------- *)
DoDisjoin(st, e) ==
  [st EXCEPT !.past = [x \in st.E |-> IF x = e THEN {} ELSE st.past[x] \ {e}]]
=============================================================================
