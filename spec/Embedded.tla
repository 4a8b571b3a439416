------------------------------ MODULE Embedded ------------------------------
(***************************************************************************)
(* State machine of an EmbeddedCauset: events with coordinates in one      *)
(* spacetime. A state s has                                                *)
(*   crd  all events ever created -> coordinates (lattice points)          *)
(*   lab  their labels (written as i:<int> or s:<str>)                     *)
(*   mem  the members                                                      *)
(*   rel  the pairs <<a, b>> of related events, a before b                 *)
(* Creating events and relate() compute the relations of the members from  *)
(* their coordinates and forget all other relations of the members;        *)
(* discarding removes members only, the discarded events keep their        *)
(* relations until then and may be added again. Events can also be added   *)
(* that were created elsewhere, and an event can be embedded anew: its     *)
(* relations follow with the next relate().                                *)
(***************************************************************************)
EXTENDS Spacetimes

RelationOf(M, crd, S) ==
  {<<a, b>> \in S \X S : a # b /\ Before(M, crd[a], crd[b])}
\* links of a relation on S
CoverOf(S, rel) ==
  {<<a, b>> \in rel : ~ \E c \in S : <<a, c>> \in rel /\ <<c, b>> \in rel}
\* the relations when all members are related by their coordinates
Related(M, crd, rel, mem) ==
  RelationOf(M, crd, mem)
  \cup {q \in rel : q[1] \notin mem /\ q[2] \notin mem}
\* what is seen from the members
MemRel(s) == s.rel \cap (s.mem \X s.mem)
MemLinks(s) == CoverOf(DOMAIN s.crd, s.rel) \cap (s.mem \X s.mem)

EmptyEmb == [crd |-> <<>>, lab |-> <<>>, mem |-> {}, rel |-> {}]

\* at least w digits, filled up with zeros
RECURSIVE Padded(_, _)
Padded(str, w) == IF Len(str) >= w THEN str ELSE Padded("0" \o str, w)

\* label number n in the format fmt = <<before, after>> or
\* <<before, after, digits>>, <<>> for none
LabelOf(fmt, n) ==
  IF fmt = <<>> THEN "i:" \o ToString(n)
  ELSE "s:" \o fmt[1] \o Padded(ToString(n),
                                IF Len(fmt) > 2 THEN fmt[3] ELSE 0) \o fmt[2]

DoCreateEmb(M, s, pts, fmt, relate) ==
  LET n == Len(s.crd)
      c == Cardinality(s.mem)
      mem == s.mem \cup {n + i : i \in DOMAIN pts}
      crd == TLCEval(s.crd \o pts)
  IN [crd |-> crd,
      lab |-> s.lab \o [i \in DOMAIN pts |-> LabelOf(fmt, c + i)],
      mem |-> mem,
      rel |-> IF relate THEN Related(M, crd, s.rel, mem) ELSE s.rel]
DoDiscardEmb(s, D) ==
  [s EXCEPT !.mem = @ \ D]
DoRelateEmb(M, s) == [s EXCEPT !.rel = Related(M, s.crd, s.rel, s.mem)]
\* new events at pts without label or relations, and old ones
DoAddEmb(s, pts, old) ==
  LET n == Len(s.crd)
  IN [s EXCEPT !.crd = @ \o pts,
               !.lab = @ \o [i \in DOMAIN pts |-> "n:"],
               !.mem = @ \cup old \cup {n + i : i \in DOMAIN pts}]
DoEmbedEmb(s, e, pt) == [s EXCEPT !.crd[e] = pt]
=============================================================================
