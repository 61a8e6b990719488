------------------------------ MODULE MCSolve ------------------------------
(***************************************************************************)
(* The solver as a whole (C27): iterated local search, penalties and       *)
(* stopping criterion together, over a few solutions, for all choices the  *)
(* search may make.  Penalised costs follow from the penalty at the time,  *)
(* which follows from the solutions that were found; the criterion is      *)
(* called before each iteration with the cost of the best solution.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxIt

I == INSTANCE ILS
P == INSTANCE Penalty
T == INSTANCE Stop

S == 1 .. 4
Base == <<4, 2, 1, 0>>
Viol == <<0, 0, 1, 3>>
Feas == [s \in S |-> Viol[s] = 0]

\* Penalties are in units of 1/1024.
PP == [w |-> 2, inc |-> 32, dec |-> 8, tgt |-> 8, tol |-> 2, lo |-> 256, hi |-> 4096]
PC(pen) == [s \in S |-> 1024 * Base[s] + pen * Viol[s]]

Iters(n) == [k |-> "iters", n |-> n]
Stops == { Iters(n) : n \in 0 .. MaxIt }
         \cup { [k |-> "noimp", n |-> n] : n \in 0 .. 2 }
         \cup { [k |-> "any", cs |-> <<[k |-> "feas"], Iters(MaxIt)>>] }
Configs == [ H : {1, 2}, K : {1, 2}, ex : BOOLEAN, init : {1, 3}, feas : {Feas}, cost : {Base} ]

VARIABLES c, stop, st, dim, crit, seen, done
vars == <<c, stop, st, dim, crit, seen, done>>

\* The criterion, called with the best solution.
Asked(s, best) ==
  T!Call(stop, s, [cost |-> I!CostOf(c, best), feas |-> Feas[best], t |-> 0])

Init ==
  /\ c \in Configs
  /\ stop \in Stops
  /\ st = [best |-> c.init, curr |-> c.init, log |-> <<>>, ni |-> 0, n |-> 0, cand |-> c.init]
  /\ dim = P!StartDim(PP, (PP.lo + PP.hi) \div 2)
  /\ crit = T!Start(stop)
  /\ seen = {c.init}
  /\ done = FALSE

Next ==
  /\ ~done
  /\ LET asked == Asked(crit, st.best) IN
     /\ crit' = asked
     /\ IF asked.out
        THEN done' = TRUE /\ UNCHANGED <<st, dim, seen>>
        ELSE \E cand \in S :
             LET pc == PC(dim.pen)
                 cc == [pc |-> [n \in {st.n + 1} |-> pc]] @@ c
             IN  \E deep \in IF I!Better(cc, st, cand) /\ c.ex
                             THEN { x \in S : pc[x] <= pc[cand] } ELSE {cand} :
                 /\ st' = I!Iterate(cc, st, cand, deep)
                 /\ dim' = P!Register(PP, dim, Viol[cand],
                             IF P!Full(PP, dim)
                             THEN P!Updated16(PP, dim.pen, Append(dim.win, Viol[cand])) \div 16
                             ELSE dim.pen)
                 /\ seen' = seen \cup {cand, st'.cand}
                 /\ done' = FALSE
  /\ UNCHANGED <<c, stop>>

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Least == \A s \in seen : I!CostOf(c, st.best) <= I!CostOf(c, s)
NotWorse == I!CostOf(c, st.best) <= I!CostOf(c, c.init)
InfeasibleIsInitial == ~Feas[st.best] => st.best = c.init
PenaltyOk == dim.pen >= PP.lo /\ dim.pen <= PP.hi
Exact == done /\ stop.k = "iters" => st.n = stop.n
NoImp == done /\ stop.k = "noimp" => st.n >= stop.n
First == done /\ stop.k = "any" => st.n = MaxIt \/ Feas[st.best]
AtMost == stop.k \in {"iters", "any"} => st.n <= MaxIt
BestOnlyImproves == [][I!CostOf(c, st'.best) <= I!CostOf(c, st.best)]_vars
PenaltyPerWindow == [][dim'.pen # dim.pen => Len(dim.win) = PP.w - 1]_vars
Ends == <>done
=============================================================================
