----------------------------- MODULE GenEvents ------------------------------
(***************************************************************************)
(* All short histories of single events with their copies.                 *)
(***************************************************************************)
EXTENDS Events, Json
CONSTANTS N,      \* largest number of events and copies
          Depth,  \* length of the histories
          Emit
VARIABLES st, hist
vars == <<st, hist>>

Labels == {"n", "i7", "sa"}
Crds == {<<1>>, <<2, 3>>}
Poss == {<<4, 5>>, <<6>>, <<1, 2, 3>>, <<>>}
Originals == {e \in Ids(st) : ~st[e].copy}

Do(a) == /\ st' = Post(st, a)
         /\ hist' = Append(hist, a)
         /\ Emit /\ ~(a.op = "write" /\ a.took) => PrintT("HIST " \o ToJson(hist'))

New == \E past \in SUBSET Originals, lab \in Labels, emb \in BOOLEAN,
          haspos \in BOOLEAN, pos \in {<<4, 5>>, <<1, 2, 3>>} :
  /\ Len(st) < N
  /\ (haspos \/ pos = <<4, 5>>)
  /\ Do([op |-> "new", past |-> past, lab |-> lab, emb |-> emb,
         crd |-> <<1, 2>>, haspos |-> haspos, pos |-> pos])
Act == \E e \in Ids(st) :
  \/ \E c \in Crds, r \in BOOLEAN :
        Do([op |-> "embed", e |-> e, crd |-> c, reembed |-> r])
  \/ \E r \in BOOLEAN : Do([op |-> "embed nothing", e |-> e, reembed |-> r])
  \/ Do([op |-> "disembed", e |-> e])
  \/ \E p \in Poss : Do([op |-> "position", e |-> e, pos |-> p])
  \/ \E w \in {"crd", "pos"}, t \in BOOLEAN :
        /\ "" \in Error(st, [op |-> "write", e |-> e, what |-> w])
        /\ Do([op |-> "write", e |-> e, what |-> w, v |-> 8, took |-> t])
  \/ \E l \in Labels : l # st[e].lab /\ Do([op |-> "label", e |-> e, lab |-> l])
  \/ Len(st) < N /\ Do([op |-> "copy", e |-> e])
  \/ ~st[e].copy /\ Do([op |-> "link", e |-> e])
  \/ ~st[e].copy /\ Do([op |-> "unlink", e |-> e])

Init == st = <<>> /\ hist = <<>>
Next == Len(hist) < Depth /\ (New \/ Act)
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
TypeOK == \A e \in Ids(st) :
  /\ st[e].emb \/ st[e].crd = <<>>
  /\ Len(st[e].pos) = 2
  /\ st[e].past \subseteq Ids(st) /\ e \notin st[e].past
  /\ st[e].lp \subseteq st[e].past /\ st[e].lf \subseteq st[e].future
Last == hist'[Len(hist')]
\* only the event that is acted upon changes, except relations by creation
Frame == [][\A e \in Ids(st) :
  ("e" \notin DOMAIN Last \/ Last.e # e \/ Last.op = "copy") =>
    /\ st'[e].lab = st[e].lab /\ st'[e].crd = st[e].crd
    /\ st'[e].pos = st[e].pos /\ st'[e].emb = st[e].emb]_vars
\* nothing that happens later reaches the relations of a copy
Frozen == [][\A e \in Ids(st) : st[e].copy =>
  /\ st'[e].past = st[e].past /\ st'[e].future = st[e].future
  /\ st'[e].lp = st[e].lp /\ st'[e].lf = st[e].lf]_vars
\* coordinates are only replaced if that is asked for
Kept == [][\A e \in Ids(st) :
  (st[e].emb /\ st'[e].emb /\ st'[e].crd # st[e].crd) =>
     IF Last.op = "write" THEN Last.took ELSE Last.reembed]_vars
=============================================================================
