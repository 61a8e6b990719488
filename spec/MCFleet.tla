------------------------------ MODULE MCFleet ------------------------------
(***************************************************************************)
(* Fleet minimisation as a protocol between the loop, a solver that may or *)
(* may not find what exists, and a stopping criterion that may say stop at *)
(* any time (C20).  `need` is how many vehicles are really needed, which   *)
(* only the solver learns about; `bound` is what is known of it.           *)
(***************************************************************************)
EXTENDS Integers

CONSTANT MAXN

VARIABLES avail, need, bound, fleet, shown, stopped, done
vars == <<avail, need, bound, fleet, shown, stopped, done>>

Max(a, b) == IF a > b THEN a ELSE b

Init ==
  /\ avail \in 1 .. MAXN
  /\ need \in 0 .. MAXN + 1
  /\ bound \in 1 .. Max(need, 1)
  /\ fleet = avail
  /\ shown = FALSE   \* is there a plan that the fleet can do?
  /\ stopped = FALSE
  /\ done = FALSE

Stop ==
  /\ ~done /\ ~stopped
  /\ stopped' = TRUE
  /\ UNCHANGED <<avail, need, bound, fleet, shown, done>>

Finish ==
  /\ ~done
  /\ fleet <= bound
  /\ done' = TRUE
  /\ UNCHANGED <<avail, need, bound, fleet, shown, stopped>>

\* The solver is asked about one vehicle less, and finds nothing: which it
\* only says once it was told to stop.
GiveUp ==
  /\ ~done /\ fleet > bound
  /\ stopped
  /\ done' = TRUE
  /\ UNCHANGED <<avail, need, bound, fleet, shown, stopped>>

\* The solver finds a plan that uses `used` vehicles.
Improve ==
  /\ ~done /\ fleet > bound
  /\ ~stopped
  /\ \E used \in need .. fleet - 1 :
       /\ fleet' = Max(used, 1)
       /\ shown' = TRUE
  /\ UNCHANGED <<avail, need, bound, stopped, done>>

Next == Stop \/ Finish \/ GiveUp \/ Improve
Spec == Init /\ [][Next]_vars /\ WF_vars(Stop) /\ WF_vars(Finish \/ GiveUp)

TypeOK == fleet \in 1 .. avail
Suffices == fleet < avail => fleet >= need /\ shown
WithinBound == fleet < avail => fleet >= bound
NotGivenUpEarly == done /\ ~stopped => fleet <= bound
Optimal == done /\ ~stopped /\ fleet < avail => fleet = Max(need, 1)
Shrinks == [][fleet' <= fleet]_vars
Ends == <>done
=============================================================================
