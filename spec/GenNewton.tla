------------------------------ MODULE GenNewton -----------------------------
(***************************************************************************)
(* All problems on a few places, and the properties of the iteration.      *)
(***************************************************************************)
EXTENDS Newton, Json
CONSTANTS W, Emit   \* places 0..W
VARIABLES q, s

Problems ==
  {[lo |-> 0, hi |-> W, step |-> f[1], fd |-> f[2], x0 |-> x0, p |-> p,
    hasmin |-> l[1], xmin |-> l[2], hasmax |-> u[1], xmax |-> u[2], n |-> n,
    dflt |-> 77] :
     f \in [1..(W + 1) -> -2..2] \X {[i \in 1..(W + 1) |-> IF i = z THEN 0
                                                           ELSE 2 - i * (i % 2)] :
                                       z \in 0..(W + 1)},
     x0 \in 0..W, p \in 1..2, l \in {<<FALSE, 0>>, <<TRUE, -1>>, <<TRUE, 0>>},
     u \in {<<FALSE, 0>>, <<TRUE, W + 1>>, <<TRUE, W>>}, n \in {0, 1, 4}}
Init == q \in Problems /\ s = Start(q)
Next == /\ s.st = "run" /\ s' = Move(q, s) /\ UNCHANGED q
        /\ (Emit /\ s'.st # "run") => PrintT("PROB " \o ToJson(q))
Spec == Init /\ [][Next]_<<q, s>> /\ WF_<<q, s>>(Next)

\* a result is restricted, and the next step would not lead away from a root
Restricted == s.st = "found" /\ q.hasmin /\ q.hasmax /\
                q.xmin + q.p <= q.xmax - q.p =>
                s.x >= q.xmin + q.p /\ s.x <= q.xmax - q.p
Bounded == s.k <= q.n
\* a start at a root stays there
Rooted == q.x0 = Restrict(q, q.x0) /\ Step(q, q.x0) = 0 /\ q.n > 0 /\
          Slope(q, q.x0) # 0 => Result(q) = q.x0
\* with the smallest precision a result is a root or at a limit
IsRoot == s.st = "found" /\ q.p = 1 =>
            Step(q, s.x) = 0 \/ s.x \in {q.xmin + q.p, q.xmax - q.p}
Ends == <>(s.st # "run")
=============================================================================
