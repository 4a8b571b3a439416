--------------------------- MODULE GenSprinkling ----------------------------
(***************************************************************************)
(* All short histories of a sprinkled causet: sprinkling, intensifying     *)
(* (with every outcome k), rejected calls, creating, adding old            *)
(* and new events, discarding members and others.                          *)
(***************************************************************************)
EXTENDS Sprinkling, Json

CONSTANTS N,      \* largest cardinality
          Depth,  \* length of the histories
          Emit
VARIABLES st, hist, poisson
vars == <<st, hist, poisson>>
View == <<st, Len(hist), poisson>>

Log(a) == /\ hist' = Append(hist, a)
          /\ Emit => PrintT("HIST " \o ToJson(hist'))
Room == N - st.card

SprinkleAct == \E n \in 0..2 :
  /\ n <= Room /\ st' = DoSprinkle(st, n) /\ poisson' = poisson
  /\ Log([op |-> "sprinkle", n |-> n])
IntensifyAct == \E q \in {0, 3}, k \in 0..2 :
  /\ k <= Room /\ (q = 0 => k = 0)
  /\ st' = DoIntensify(st, q, k) /\ poisson' = (poisson \/ q # 0)
  /\ Log([op |-> "intensify", q |-> q])
RejectAct == \E o \in {"sprinkle", "intensify", "misfit sprinkle",
                       "misfit intensify", "misfit create"} :
  /\ st' = st /\ poisson' = poisson
  /\ Log(CASE o = "sprinkle" -> [op |-> o, n |-> -1]
           [] o = "intensify" -> [op |-> o, q |-> -2]
           [] OTHER -> [op |-> o, n |-> 2, q |-> 3])
CreateAct == \E n \in 0..2 :
  /\ n <= Room /\ st' = DoSprinkle(st, n) /\ poisson' = poisson
  /\ Log([op |-> "create", n |-> n])
AddAct == \E n \in 0..2, old \in 0..1 :
  /\ n <= Room /\ old <= st.card /\ st' = DoSprinkle(st, n)
  /\ poisson' = poisson
  /\ Log([op |-> "add", n |-> n, old |-> old])
DiscardAct == \E k \in 0..3, other \in 0..1 :
  /\ k <= st.card /\ st' = DoDiscardSpr(st, k) /\ poisson' = poisson
  /\ Log([op |-> "discard", n |-> k, other |-> other])

Init == st = EmptySpr /\ hist = <<>> /\ poisson = FALSE
Next == /\ Len(hist) < Depth
        /\ SprinkleAct \/ IntensifyAct \/ RejectAct \/ CreateAct \/ AddAct
           \/ DiscardAct
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
TypeOK == st.card \in 0..N /\ st.num >= 0 /\ st.den >= 1
\* as long as nothing is left to chance, the intensity is the cardinality
Certain == ~poisson => st.num = st.card /\ st.den = 1
\* nothing is kept of an emptied causet
Emptied == [][(hist'[Len(hist')].op = "discard" /\ st.card > 0 /\ st'.card = 0)
              => st'.num = 0]_vars
\* discarding never raises the intensity, everything else never lowers it
Direction == [][LET a == hist'[Len(hist')] IN
  IF a.op = "discard" THEN st'.num * st.den <= st.num * st'.den
  ELSE st'.num * st.den >= st.num * st'.den]_vars
=============================================================================
