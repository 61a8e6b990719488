------------------------------- MODULE Stats -------------------------------
(***************************************************************************)
(* Search statistics and results (C21), over the semantics of VRP.tla.     *)
(*                                                                         *)
(* The state of a statistics object is [on, t, rows, times]: whether it    *)
(* collects, when it was last looked at, and its rows and their durations. *)
(***************************************************************************)
EXTENDS VRP

StatsNew(on, t) == [on |-> on, t |-> t, rows |-> <<>>, times |-> <<>>]

\* One collection: of current, candidate and best solution, each given as
\* [cost, feas], at time t.
StatsCollect(s, cur, cand, best, t) ==
  IF ~s.on THEN s ELSE
  [s EXCEPT !.t = t,
            !.times = Append(@, t - s.t),
            !.rows = Append(@, [cc |-> cur.cost, cf |-> cur.feas,
                                dc |-> cand.cost, df |-> cand.feas,
                                bc |-> best.cost, bf |-> best.feas])]

\* What a solution looks like to the statistics, under given penalties.
Seen(d, plan, tes, pen) == [cost |-> PenCost(d, plan, tes, pen), feas |-> Feasible(d, plan, tes)]

\* The file format: a header, then one line per row, flags as 0 and 1.
Flag(b) == IF b THEN "1" ELSE "0"
Header == <<"runtime", "current_cost", "current_feas", "candidate_cost", "candidate_feas",
            "best_cost", "best_feas">>

Free(d) == [load |-> [k \in Dims(d) |-> 0], tw |-> 0, dist |-> 0]
=============================================================================
