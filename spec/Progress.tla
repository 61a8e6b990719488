------------------------------ MODULE Progress ------------------------------
(***************************************************************************)
(* What is displayed while the solver runs.  An iteration is shown when at *)
(* least the display interval has passed since the last one shown (or, for *)
(* the first, since the start), with the most recently collected numbers.  *)
(* It is marked when it shows a better feasible best solution than all     *)
(* lines before it.  Times in units of 1/8 s.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

\* x: the latest statistics [n, time, cc, cf, dc, df, bc, bf]
YN(b) == IF b THEN "Y" ELSE "N"

Begin(now) == [last |-> now, shown |-> FALSE, best |-> 0]

Due(p, s, now) == p.on /\ p.stats /\ now - s.last >= p.every

\* a feasible best that is better than any shown before
News(s, x) == x.bf /\ (~s.shown \/ x.bc < s.best)

Shown(s, x) ==
  [k |-> "iter", mark |-> News(s, x), n |-> x.n, cc |-> x.cc, cf |-> YN(x.cf),
   dc |-> x.dc, df |-> YN(x.df), bc |-> x.bc, bf |-> YN(x.bf)]

\* Shown time is rounded to seconds, halves either way.
TimeOk(t, secs) == 8 * secs - t <= 4 /\ t - 8 * secs <= 4

AfterIter(p, s, x, now) ==
  IF ~Due(p, s, now) THEN s
  ELSE [last |-> now, shown |-> s.shown \/ News(s, x), best |-> IF News(s, x) THEN x.bc ELSE s.best]

Plural(n, word) == ToString(n) \o " " \o word \o (IF n = 1 THEN "" ELSE "s")
=============================================================================
