------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* The settings of a plot: what plot_parameters makes of its keyword       *)
(* arguments, and what the drawn artists then look like. The state is the  *)
(* colour scheme and the default colours, changed by setDefaultColors and  *)
(* by nothing else; a request does not depend on earlier requests.         *)
(*                                                                         *)
(* Values are tokens: strings that are equal exactly for equal values. A   *)
(* colour is [k |-> "cs", v |-> key of the scheme] or a plain value.       *)
(* Lengths are integers, 10000 for the unit.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

GroupNames == {"links", "events", "labels", "pastcones", "futurecones"}
OnByDefault == {"links", "events", "labels"}
ColourParts == {"links", "linksedge", "linksface", "eventsedge",
                "eventsface", "conesedge", "conesface"}

Plain(t) == [k |-> "plain", v |-> t]
(* S: the state. schemes: name -> key -> token *)
InitState(defaults) == [scheme |-> "matplotlib", def |-> defaults]
\* the call of setDefaultColors; over: part -> colour, name "" if left out;
\* an unknown scheme is refused and changes nothing
Known(names, name) == name = "" \/ name \in names
SetColours(S, names, name, over) ==
  IF ~Known(names, name) THEN S ELSE
  [scheme |-> IF name = "" THEN "matplotlib" ELSE name,
   def |-> [p \in DOMAIN S.def |-> IF p \in DOMAIN over THEN over[p]
                                   ELSE S.def[p]]]
Colour(S, schemes, c) == IF c.k = "cs" THEN schemes[S.scheme][c.v] ELSE c.v

(* the documented defaults of a group *)
Defaults(S, g, three) ==
  CASE g = "links" ->
         ("linewidth" :> Plain("2.0000") @@ "linestyle" :> Plain("s:-")
          @@ "markevery" :> Plain("[]") @@ "color" :> S.def["links"]
          @@ "marker" :> Plain("s:o") @@ "markersize" :> Plain("5.0000")
          @@ "markeredgecolor" :> S.def["linksedge"]
          @@ "markerfacecolor" :> S.def["linksface"])
    [] g = "events" ->
         ("linewidth" :> Plain("2.0000") @@ "linestyle" :> Plain("s:None")
          @@ "marker" :> Plain("s:o") @@ "markersize" :> Plain("7.0000")
          @@ "markeredgecolor" :> S.def["eventsedge"]
          @@ "markerfacecolor" :> S.def["eventsface"])
    [] g = "labels" ->
         ("verticalalignment" :> Plain("s:top")
          @@ "horizontalalignment" :> Plain("s:right"))
    [] three ->
         ("edgecolor" :> Plain("c:none") @@ "color" :> S.def["conesface"]
          @@ "alpha" :> Plain("0.1000"))
    [] OTHER ->
         ("edgecolor" :> S.def["conesedge"] @@ "facecolor" :> Plain("c:none")
          @@ "alpha" :> Plain("0.1000"))

(* A request r: groups[g] = [k |-> "absent", "on", "off" or "dict",         *)
(* d |-> the entries of the user], gap |-> whether link gaps are asked for. *)
On(r, g) == \/ r.groups[g].k \in {"on", "dict"}
            \/ r.groups[g].k = "absent" /\ g \in OnByDefault
\* an empty dictionary neither has to show nor to hide a group
Unsure(r, g) == r.groups[g].k = "dict" /\ DOMAIN r.groups[g].d = {}
\* the look of the gaps of links is not documented
OpenKeys(r, g) == IF g = "links" /\ r.gap
                  THEN {"markersize", "markeredgecolor", "markerfacecolor"}
                  ELSE {}
Three(r) == Len(r.dims) = 3
Expected(S, schemes, r, g) ==
  LET e == r.groups[g].d @@ Defaults(S, g, Three(r))
  IN [k \in DOMAIN e |-> Colour(S, schemes, e[k])]
ValidDims(r) == Len(r.dims) \in {2, 3}

(* the entries m of one group: m is the observed function *)
GroupGood(S, schemes, r, g, m) ==
  LET e == Expected(S, schemes, r, g)
  IN /\ DOMAIN m = DOMAIN e
     /\ \A k \in DOMAIN e \ OpenKeys(r, g) : m[k] = e[k]

(* axis limits *)
AbsS(x) == IF x < 0 THEN -x ELSE x
NearS(x, y) == AbsS(x - y) <= 2
NearPair(p, q) == Len(p) = 2 /\ Len(q) = 2 /\ NearS(p[1], q[1])
                  /\ NearS(p[2], q[2])
Half(s, d) == \* of a shape, d = 1 is the time
  CASE s.name = "cube" -> s.r \div 2
    [] s.name = "cuboid" -> s.e[d] \div 2
    [] s.name = "cylinder" /\ d = 1 -> s.dur \div 2
    [] OTHER -> s.r
ShapeLimits(s, dims) ==
  LET h(i) == Half(s, dims[i] + 1)
      m == CHOOSE x \in {h(i) : i \in DOMAIN dims} :
             \A i \in DOMAIN dims : h(i) <= x
      w(i) == IF Len(dims) = 3 THEN m ELSE h(i)
  IN [i \in DOMAIN dims |-> <<s.c[dims[i] + 1] - w(i),
                              s.c[dims[i] + 1] + w(i)>>]
Same(l, m) == Len(l) = Len(m) /\ \A i \in DOMAIN l : NearPair(l[i], m[i])
\* r.lim is <<>> if no limits are given; observed: l is <<>> if unset
LimitsGood(r, l) ==
  CASE r.limkind = "given" -> Same(l, r.lim)
    [] r.limkind = "shape" -> Same(l, ShapeLimits(r.shape, r.dims))
    [] r.hasshape -> l = <<>> \/ Same(l, ShapeLimits(r.shape, r.dims))
    [] OTHER -> l = <<>>
OptionGood(opt, default, observed) ==
  IF opt = "" THEN observed = default ELSE observed = opt
=============================================================================
