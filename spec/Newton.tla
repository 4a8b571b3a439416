------------------------------- MODULE Newton -------------------------------
(***************************************************************************)
(* Newton's method as a state machine. A problem q has functions given at  *)
(* integer places: at x the derivative is q.fd[x] and the distance of the  *)
(* value from the goal is q.fd[x] * q.step[x], so that a Newton step leads *)
(* from x to x - q.step[x]. Places are q.lo .. q.hi (and beyond them, where*)
(* the step leads back to the nearest of these), limits are xmin and xmax, *)
(* with flags whether they are given, p is the precision and n the maximal *)
(* number of steps.                                                        *)
(*                                                                         *)
(* A state is [x, k, st]: place, number of steps made, and "run", "found"  *)
(* or "default".                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

AbsN(x) == IF x < 0 THEN -x ELSE x
Step(q, x) == IF x < q.lo THEN x - q.lo ELSE IF x > q.hi THEN x - q.hi
              ELSE q.step[x - q.lo + 1]
Slope(q, x) == IF x < q.lo \/ x > q.hi THEN 1 ELSE q.fd[x - q.lo + 1]
\* The lower limit takes precedence if the limits leave no room.
Restrict(q, x) == IF q.hasmin /\ x < q.xmin + q.p THEN q.xmin + q.p
                  ELSE IF q.hasmax /\ x > q.xmax - q.p THEN q.xmax - q.p
                  ELSE x
Start(q) == [x |-> q.x0, k |-> 0, st |-> "run"]
Move(q, s) ==
  IF s.k = q.n \/ Slope(q, s.x) = 0 THEN [s EXCEPT !.st = "default"]
  ELSE LET y == Restrict(q, s.x - Step(q, s.x))
       IN [x |-> y, k |-> s.k + 1,
           st |-> IF AbsN(s.x - y) < q.p THEN "found" ELSE "run"]
RECURSIVE Finish(_, _)
Finish(q, s) == IF s.st # "run" THEN s ELSE Finish(q, Move(q, s))
\* what NewtonsMethod returns
Result(q) == LET s == Finish(q, Start(q))
             IN IF s.st = "found" THEN s.x ELSE q.dflt
=============================================================================
