---- MODULE EmbeddedMC ----
EXTENDS GenEmbedded
F2 == [k |-> "flat", d |-> 2, per |-> <<0>>, form |-> "default"]
P2 == [k |-> "flat", d |-> 2, per |-> <<4>>, form |-> "float"]
F3 == [k |-> "flat", d |-> 3, per |-> <<0, 0>>, form |-> "default"]
D2 == [k |-> "dS", d |-> 2, R |-> 5]
A2 == [k |-> "AdS", d |-> 2, R |-> 4, p |-> 3, q |-> 5]
E2 == [k |-> "EF", d |-> 2, form |-> "default"]
MMv == {F2, P2, F3, D2, A2, E2}
PtsV == [x \in MMv |->
  CASE x = F2 -> <<<<0, 0>>, <<2, 1>>, <<1, 1>>, <<3, -1>>, <<0, 3>>>>
    [] x = P2 -> <<<<0, 0>>, <<1, 3>>, <<2, 1>>, <<0, 2>>, <<3, 0>>>>
    [] x = F3 -> <<<<0, 0, 0>>, <<5, 3, 4>>, <<2, 1, 1>>, <<9, 3, 3>>,
                   <<1, 1, 1>>>>
    [] x = D2 -> <<<<0, 0>>, <<1, 3>>, <<-1, 0>>, <<2, -4>>, <<0, 4>>>>
    [] x = A2 -> <<<<0, 0>>, <<1, 3>>, <<2, -3>>, <<5, 0>>, <<0, 1>>>>
    [] x = E2 -> <<<<0, 0, 1, 20>>, <<9, 0, 1, 12>>, <<3, 0, 1, 24>>,
                   <<20, 0, 1, 8>>, <<0, 0, 1, 32>>>>]
====
