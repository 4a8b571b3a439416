------------------------------ MODULE Colours -------------------------------
(***************************************************************************)
(* Colour schemes. The scheme tables are data (Schemes: name -> key ->     *)
(* colour string); the state is the name of the current scheme and the     *)
(* default colours of the plots. A colour is a record [k, v] where k is    *)
(* "cs" for a scheme colour with the key v and anything else for a value v *)
(* that passes through.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Has(S, name) == name \in DOMAIN S
\* the scheme to be used, given the explicit name ("" if there is none)
Used(cur, name) == IF name = "" THEN cur ELSE name
Known(S, scheme, c) == c.k = "cs" => c.v \in DOMAIN S[scheme]
Resolve(S, scheme, c) == IF c.k = "cs" THEN S[scheme][c.v] ELSE c.v

(* st = [cur |-> name, def |-> default name -> colour]                      *)
Error(S, st, a) ==
  CASE a.op \in {"set", "default"} ->
         IF a.name # "" /\ ~Has(S, a.name) THEN {"ValueError"} ELSE {}
    [] a.op = "pick" -> IF ~Has(S, a.name) THEN {"ValueError"} ELSE {}
    [] a.op = "get" -> {}
    [] a.op \in {"color", "dict", "list"} ->
         IF a.name # "" /\ ~Has(S, a.name) THEN {"ValueError"}
         ELSE IF \E i \in DOMAIN a.cs : ~Known(S, Used(st.cur, a.name), a.cs[i])
              THEN {"KeyError", "ValueError"} ELSE {}
    [] OTHER -> {}

Apply(S, st, a) ==
  CASE a.op = "set" -> [st EXCEPT !.cur = a.name]
    [] a.op = "default" ->
         [cur |-> IF a.name = "" THEN "matplotlib" ELSE a.name,
          def |-> [d \in DOMAIN st.def |->
                     IF d \in DOMAIN a.def THEN a.def[d] ELSE st.def[d]]]
    [] OTHER -> st
Post(S, st, a) == IF Error(S, st, a) = {} THEN Apply(S, st, a) ELSE st

\* the colours a list or dictionary is turned into
Converted(S, st, a) ==
  [i \in DOMAIN a.cs |-> Resolve(S, Used(st.cur, a.name), a.cs[i])]
\* the colour of a part of a plot: explicit, else the default
PlotColour(S, st, a, part) ==
  Resolve(S, st.cur, IF part \in DOMAIN a.own THEN a.own[part]
                     ELSE st.def[part])

(* Every scheme has all colours the defaults refer to, and both spellings of *)
(* grey are the same colour.                                                *)
SchemeOK(S, def, name) ==
  /\ \A d \in DOMAIN def : Known(S, name, def[d])
  /\ \A key \in DOMAIN S["matplotlib"] : key \in DOMAIN S[name]
  /\ S[name]["gray"] = S[name]["grey"]
=============================================================================
