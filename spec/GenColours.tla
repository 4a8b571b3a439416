----------------------------- MODULE GenColours -----------------------------
(* All short histories of setting and using colour schemes.                 *)
EXTENDS Colours, Json
CONSTANTS Depth, Emit
VARIABLES st, hist
vars == <<st, hist>>
\* stand-in for the tables; recorded runs are judged with the real ones
Tables == [matplotlib |-> [core |-> "A", blue |-> "B"],
           UniYork |-> [core |-> "C", blue |-> "D", darkblue |-> "E"],
           ImperialLondon |-> [core |-> "F", blue |-> "G", violet |-> "H"]]
Names == {"matplotlib", "UniYork", "ImperialLondon", "nonsense"}
Cs(key) == [k |-> "cs", v |-> key]
Plain(x) == [k |-> "plain", v |-> x]
Some == {<<Cs("core")>>, <<Cs("darkblue"), Plain("red")>>,
         <<Plain("tab:red"), Cs("blue"), Cs("core")>>, <<Plain("core")>>}
Do(a) == /\ st' = Post(Tables, st, a)
         /\ hist' = Append(hist, a)
         /\ Emit => PrintT("HIST " \o ToJson(hist'))
Init == /\ st = [cur |-> "matplotlib",
                 def |-> [links |-> Cs("blue"), eventsface |-> Cs("core")]]
        /\ hist = <<>>
NoDef == [d \in {} |-> Cs("core")]
Next == /\ Len(hist) < Depth
        /\ \/ \E n \in Names : Do([op |-> "set", name |-> n])
           \/ \E n \in Names \cup {""} :
                \/ Do([op |-> "default", name |-> n, def |-> NoDef])
                \/ Do([op |-> "default", name |-> n,
                       def |-> [links |-> Plain("red")]])
                \/ Do([op |-> "default", name |-> n,
                       def |-> [eventsface |-> Cs("orange")]])
                \/ \E c \in Some, o \in {"dict", "list"} :
                     Do([op |-> o, name |-> n, cs |-> c])
                \/ Do([op |-> "color", name |-> n, cs |-> <<Cs("core")>>])
           \/ \E n \in Names : Do([op |-> "pick", name |-> n])
           \/ Do([op |-> "get"])
           \/ Do([op |-> "plot", own |-> NoDef])
           \/ Do([op |-> "plot", own |-> [links |-> Cs("green")]])
Spec == Init /\ [][Next]_vars
TypeOK == /\ Has(Tables, st.cur)
          /\ DOMAIN st.def = {"links", "eventsface"}
\* only these two change the scheme and only the last one counts
LastSet == \A i \in DOMAIN hist :
  (hist[i].op \in {"set", "default"} /\ Has(Tables, hist[i].name)
   /\ \A j \in DOMAIN hist : j > i => hist[j].op \notin {"set", "default"})
  => st.cur = hist[i].name
Passive == [][hist'[Len(hist')].op \notin {"set", "default"} => st' = st]_vars
=============================================================================
