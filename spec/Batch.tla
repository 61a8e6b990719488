------------------------------- MODULE Batch -------------------------------
(***************************************************************************)
(* Steps through recorded cases in NCHUNK independent lanes, and reports   *)
(* every failing clause of every case.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS NCHUNK, Cases, Verdict(_)
VARIABLES lane, pos

Init == lane \in 1 .. NCHUNK /\ pos = 0

Report(i) == \A x \in Verdict(Cases[i]) : PrintT(<<"FAIL", i, x>>)

Next ==
  /\ pos * NCHUNK + lane <= Len(Cases)
  /\ Report(pos * NCHUNK + lane)
  /\ pos' = pos + 1
  /\ UNCHANGED lane

Spec == Init /\ [][Next]_<<lane, pos>>
\* every case was judged
AllJudged == TLCGet("stats").distinct = NCHUNK + Len(Cases)
=============================================================================
