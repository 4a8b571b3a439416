------------------------------- MODULE Events -------------------------------
(***************************************************************************)
(* Life cycle of the attributes of single events: label, coordinates,      *)
(* position, and the independence of copies. A state is a sequence of      *)
(* events; an event is a record                                            *)
(*   lab  label as a string with a leading kind letter ("n", "i7", "sa")   *)
(*   emb  embedded or not, crd its coordinates (<<>> if not embedded)      *)
(*   pos  position in a Hasse diagram                                      *)
(*   past, future, lp, lf   relations and links as sets of event numbers   *)
(*   copy TRUE for a copy: its relations are frozen when it is made        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ids(s) == DOMAIN s
CoverPast(s, e) == {p \in s[e].past : \A q \in s[e].past : p \notin s[q].past}
CoverFuture(s, e) ==
  {f \in s[e].future : \A q \in s[e].future : f \notin s[q].future}

\* links of the originals follow the order, those of copies stay
Relink(s) == [e \in Ids(s) |->
  IF s[e].copy THEN s[e]
  ELSE [s[e] EXCEPT !.lp = CoverPast(s, e), !.lf = CoverFuture(s, e)]]

NoPos == <<0, 0>>

(* --------------------------------- actions -------------------------------- *)
(* An action is a record with the field op; Allowed says whether it is      *)
(* accepted, Apply gives the state after an accepted one, Error the kinds   *)
(* of error of a rejected one. Writing into the list of coordinates or the  *)
(* position that an event returns may show in this event (took) or not, but *)
(* in no other event.                                                       *)

BadPos(a) == a.pos # <<>> /\ Len(a.pos) # 2
Error(s, a) ==
  CASE a.op = "new" -> IF a.haspos /\ Len(a.pos) # 2 THEN {"ValueError"} ELSE {}
    [] a.op = "embed" -> IF s[a.e].emb /\ ~a.reembed
                         THEN {"AttributeError"} ELSE {}
    [] a.op = "embed nothing" -> IF s[a.e].emb /\ ~a.reembed
                                 THEN {"AttributeError", "TypeError"}
                                 ELSE {"TypeError"}
    [] a.op = "disembed" -> IF s[a.e].emb THEN {} ELSE {"", "AttributeError"}
    [] a.op = "position" -> IF Len(a.pos) # 2 THEN {"ValueError"} ELSE {}
    [] a.op = "write" -> IF a.what = "crd" /\ ~s[a.e].emb
                         THEN {"AttributeError"} ELSE {"", "TypeError"}
    [] OTHER -> {}

Create(s, a) ==
  LET P == UNION {s[p].past \cup {p} : p \in a.past}
      n == Len(s) + 1
      e == [lab |-> a.lab, emb |-> a.emb, crd |-> IF a.emb THEN a.crd ELSE <<>>,
            pos |-> IF a.haspos THEN a.pos ELSE NoPos,
            past |-> P, future |-> {}, lp |-> {}, lf |-> {}, copy |-> FALSE]
      t == [i \in Ids(s) |->
              IF i \in P THEN [s[i] EXCEPT !.future = @ \cup {n}] ELSE s[i]]
  IN Relink(Append(t, e))

Apply(s, a) ==
  CASE a.op = "new" -> Create(s, a)
    [] a.op = "embed" -> [s EXCEPT ![a.e].emb = TRUE, ![a.e].crd = a.crd]
    [] a.op = "disembed" -> [s EXCEPT ![a.e].emb = FALSE, ![a.e].crd = <<>>]
    [] a.op = "position" -> [s EXCEPT ![a.e].pos = a.pos]
    [] a.op = "write" -> IF ~a.took THEN s
                         ELSE IF a.what = "crd"
                         THEN [s EXCEPT ![a.e].crd[1] = a.v]
                         ELSE [s EXCEPT ![a.e].pos[1] = a.v]
    [] a.op = "label" -> [s EXCEPT ![a.e].lab = a.lab]
    [] a.op = "copy" -> Append(s, [s[a.e] EXCEPT !.emb = FALSE, !.crd = <<>>,
                                                 !.pos = NoPos, !.copy = TRUE])
    [] OTHER -> s

Post(s, a) == IF Error(s, a) \subseteq {"", "TypeError"} /\
                 (Error(s, a) = {} \/ "" \in Error(s, a)) THEN Apply(s, a) ELSE s
=============================================================================
