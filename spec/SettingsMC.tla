----------------------------- MODULE SettingsMC -----------------------------
(* The settings as a state machine: calls of setDefaultColors (also with an  *)
(* unknown scheme) in any order. hist is the list of the calls that took     *)
(* effect. Checked: the scheme is the one of the last call, every part has   *)
(* the colour of the last call that named it, the user's entries and the     *)
(* on/off switches decide the groups in every state.                         *)
EXTENDS Settings
CONSTANTS MaxCalls
VARIABLES S, hist
vars == <<S, hist>>

Schemes == [n \in {"matplotlib", "other"} |->
              [k \in {"blue", "cyan"} |-> <<n, k>>]]
Start == [p \in ColourParts |-> [k |-> "cs", v |-> "blue"]]
Parts == {"links", "conesface"}
Choice == {[k |-> "cs", v |-> "cyan"], Plain(<<"plain", "red">>)}
Overs == UNION {[P -> Choice] : P \in SUBSET Parts}
Names == {"", "matplotlib", "other", "unknown"}

Init == S = InitState(Start) /\ hist = <<>>
Call(n, o) ==
  /\ Len(hist) < MaxCalls
  /\ S' = SetColours(S, DOMAIN Schemes, n, o)
  /\ hist' = IF Known(DOMAIN Schemes, n) THEN Append(hist, <<n, o>>) ELSE hist
Next == \E n \in Names, o \in Overs : Call(n, o)
Spec == Init /\ [][Next]_vars

LastScheme == IF hist = <<>> \/ hist[Len(hist)][1] = "" THEN "matplotlib"
              ELSE hist[Len(hist)][1]
Named(p) == {i \in DOMAIN hist : p \in DOMAIN hist[i][2]}
LastOf(p) == LET I == Named(p) IN CHOOSE i \in I : \A j \in I : j <= i
StateInv ==
  /\ S.scheme = LastScheme
  /\ \A p \in ColourParts :
       S.def[p] = IF Named(p) = {} THEN Start[p] ELSE hist[LastOf(p)][2][p]

Kinds == {[k |-> "absent", d |-> <<>>], [k |-> "on", d |-> <<>>],
          [k |-> "off", d |-> <<>>]}
User == [k |-> "dict", d |-> ("color" :> [k |-> "cs", v |-> "cyan"])]
Req(g, x, three) ==
  [dims |-> IF three THEN <<1, 2, 0>> ELSE <<1, 0>>, gap |-> FALSE,
   limkind |-> "", lim |-> <<>>, hasshape |-> FALSE, shape |-> <<>>,
   opts |-> <<>>,
   groups |-> [h \in GroupNames |->
                 IF h = g THEN x ELSE [k |-> "absent", d |-> <<>>]]]
GroupInv ==
  \A g \in GroupNames, three \in BOOLEAN :
    /\ \A x \in Kinds :
         On(Req(g, x, three), g) <=>
           x.k = "on" \/ (x.k = "absent" /\ g \in OnByDefault)
    /\ On(Req(g, User, three), g)
    \* the entry of the user wins and leaves the other entries alone
    /\ LET e == Expected(S, Schemes, Req(g, User, three), g)
           d == Expected(S, Schemes,
                         Req(g, [k |-> "on", d |-> <<>>], three), g)
       IN /\ e["color"] = <<S.scheme, "cyan">>
          /\ DOMAIN e = DOMAIN d \cup {"color"}
          /\ \A k \in DOMAIN d \ {"color"} : e[k] = d[k]
=============================================================================
