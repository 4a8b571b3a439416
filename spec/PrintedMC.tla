----------------------------- MODULE PrintedMC -----------------------------
(* Histories of up to MaxEvents events. Checked: events that print the same  *)
(* have equal labels (no label and the empty label alike; a number that is   *)
(* no integer prints like its text), the full form changes with links, label *)
(* and coordinates only, linking and unlinking never change a printed form.  *)
EXTENDS Printed
CONSTANTS MaxEvents
VARIABLES st, prev, op
vars == <<st, prev, op>>

Labels == {[k |-> "none", v |-> ""], [k |-> "int", v |-> "0"],
           [k |-> "int", v |-> "7"], [k |-> "str", v |-> "7"],
           [k |-> "str", v |-> ""], [k |-> "float", v |-> "7.5"]}
Coords == {[has |-> FALSE, c |-> <<>>], [has |-> TRUE, c |-> <<"0.5", "1.0">>]}
N == Len(st.past)
E == 1..N
Forms(s) == [i \in 1..Len(s.past) |-> Full(s, i)]

Init == st = Empty /\ prev = Empty /\ op = "start"
Do(s) == st' = Step(st, s) /\ prev' = st /\ op' = s.op
Next ==
  \/ /\ N < MaxEvents
     /\ \E P \in SUBSET E : \E l \in Labels : \E c \in Coords :
          LET RECURSIVE AsSeq(_)
              AsSeq(S) == IF S = {} THEN <<>>
                        ELSE LET x == CHOOSE x \in S : TRUE
                             IN <<x>> \o AsSeq(S \ {x})
          IN Do([op |-> "new", past |-> AsSeq(P), lab |-> l, crd |-> c,
                 cls |-> "CausetEvent"])
  \/ \E e \in E : \/ Do([op |-> "disjoin", e |-> e])
                  \/ Do([op |-> "link", e |-> e])
                  \/ Do([op |-> "label", e |-> e,
                         lab |-> [k |-> "str", v |-> "z"]])
Spec == Init /\ [][Next]_vars
View == <<st, IF op = "new" THEN "new" ELSE op>>

LabelInv == \A i, j \in E : Short(st.lab[i]) = Short(st.lab[j]) =>
  \/ ~Labelled(st.lab[i]) /\ ~Labelled(st.lab[j])
  \/ st.lab[i].v = st.lab[j].v /\ (st.lab[i].k = "int") = (st.lab[j].k = "int")
LinkInv == op = "link" => st = prev
NewInv == op = "new" => \A i \in 1..Len(prev.past) : Full(prev, i) = Full(st, i)
OneForm == \A e \in E : Full(st, e) # {} /\
             (Cardinality(LinkPast(st, e)) <= 1 => Cardinality(Full(st, e)) = 1)
BareForm == \A e \in E : "CausetEvent()" \in Full(st, e) <=>
  /\ LinkPast(st, e) = {} /\ ~Labelled(st.lab[e]) /\ ~st.crd[e].has
=============================================================================
