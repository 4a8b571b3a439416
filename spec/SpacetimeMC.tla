---- MODULE SpacetimeMC ----
EXTENDS SpacetimeThm
Spaces == { [k |-> "flat", d |-> 2, per |-> <<0>>], [k |-> "flat", d |-> 2, per |-> <<5>>],
 [k |-> "flat", d |-> 3, per |-> <<0,0>>], [k |-> "flat", d |-> 3, per |-> <<3,0>>],
 [k|->"dS", d|->2, R|->5], [k|->"dS", d|->3, R|->5],
 [k|->"AdS", d|->2, R|->3, p|->3, q|->5],[k|->"AdS", d|->3, R|->4, p|->3, q|->5],
 [k|->"EF", d|->4],[k|->"S",d|->4]}
====
