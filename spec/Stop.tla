-------------------------------- MODULE Stop --------------------------------
(***************************************************************************)
(* Stopping criteria, as predicates of the whole history h of calls, each  *)
(* with the best cost and the time of the call.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* The last call whose cost is strictly better than all before it.
LastBetter(h) ==
  CHOOSE j \in 1 .. Len(h) :
    /\ \A i \in 1 .. j - 1 : h[j].cost < h[i].cost
    /\ \A k \in j + 1 .. Len(h) : \E i \in 1 .. k - 1 : h[i].cost <= h[k].cost

\* Must and may differ only when exactly the maximum runtime has passed.
Since(h) == h[Len(h)].t - h[1].t
RECURSIVE Fires(_, _, _)
Fires(c, h, strict) ==
  CASE c.k = "iters" -> Len(h) > c.n
    [] c.k = "noimp" -> Len(h) - LastBetter(h) >= c.n
    [] c.k = "feas"  -> h[Len(h)].feas
    [] c.k = "time"  -> IF strict THEN Since(h) > c.n ELSE Since(h) >= c.n
    [] c.k = "any"   -> \E i \in 1 .. Len(c.cs) : Fires(c.cs[i], h, strict)
Must(c, h) == Fires(c, h, TRUE)
May(c, h) == Fires(c, h, FALSE)

\* Which can be constructed.
RECURSIVE Valid(_)
Valid(c) == CASE c.k \in {"iters", "noimp", "time"} -> c.n >= 0
              [] c.k = "feas" -> TRUE
              [] c.k = "any" -> Len(c.cs) > 0 /\ \A i \in 1 .. Len(c.cs) : Valid(c.cs[i])

(***************************************************************************)
(* The same as automata with bounded state, as implemented.                *)
(***************************************************************************)
RECURSIVE Start(_)
Start(c) == CASE c.k = "any" -> [kids |-> [i \in 1 .. Len(c.cs) |-> Start(c.cs[i])]]
              [] OTHER -> [calls |-> 0, target |-> 0, count |-> 0, t0 |-> 0, out |-> FALSE]
RECURSIVE Call(_, _, _)
Call(c, s, e) ==
  CASE c.k = "any" ->
         LET kids == [i \in 1 .. Len(c.cs) |-> Call(c.cs[i], s.kids[i], e)]
         IN  [kids |-> kids, out |-> \E i \in 1 .. Len(c.cs) : kids[i].out]
    [] OTHER ->
         LET first == s.calls = 0
             better == first \/ e.cost < s.target
             count == IF better THEN 0 ELSE s.count + 1
             t0 == IF first THEN e.t ELSE s.t0
         IN  [ calls |-> s.calls + 1,
               target |-> IF better THEN e.cost ELSE s.target,
               count |-> count,
               t0 |-> t0,
               out |-> CASE c.k = "iters" -> s.calls + 1 > c.n
                         [] c.k = "noimp" -> count >= c.n
                         [] c.k = "feas" -> e.feas
                         [] c.k = "time" -> e.t - t0 > c.n ]
=============================================================================
