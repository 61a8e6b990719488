------------------------------- MODULE Penalty -------------------------------
(***************************************************************************)
(* The penalty manager: one independent automaton per penalised quantity.  *)
(* Penalties are integers in units of 1/1024.  Parameters p:               *)
(*   w          registrations per window                                   *)
(*   inc, dec   factors, in 1/16                                           *)
(*   tgt, tol   target fraction of feasible solutions and tolerance, 1/16  *)
(*   lo, hi     bounds                                                     *)
(* A dimension's state: pen, the violations of the current window, and the *)
(* sum of violations of the previous window (NONE if there was none).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

NONE == -1
Abs(x) == IF x < 0 THEN -x ELSE x
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
NumFeas(s) == FoldLeft(LAMBDA a, v : a + IF v = 0 THEN 1 ELSE 0, 0, s)

StartDim(p, pen) == [pen |-> Clip(pen, p.lo, p.hi), win |-> <<>>, prev |-> NONE]

\* (target - feasible fraction) * 16 w
Diff(p, s) == p.tgt * p.w - 16 * NumFeas(s)
TooFew(p, s) == Diff(p, s) > 0 /\ Diff(p, s) >= p.tol * p.w
TooMany(p, s) == Diff(p, s) <= 0 /\ -Diff(p, s) >= p.tol * p.w

\* 16 times the new penalty.
Updated16(p, pen, s) ==
  IF TooFew(p, s) THEN Clip(p.inc * pen, 16 * p.lo, 16 * p.hi)
  ELSE IF TooMany(p, s) THEN Clip(p.dec * pen, 16 * p.lo, 16 * p.hi)
  ELSE 16 * pen

\* Registering a violation v; post is the penalty afterwards.
Full(p, dim) == Len(dim.win) + 1 = p.w
Register(p, dim, v, post) ==
  IF Full(p, dim)
  THEN [pen |-> post, win |-> <<>>, prev |-> Sum(Append(dim.win, v))]
  ELSE [pen |-> post, win |-> Append(dim.win, v), prev |-> dim.prev]

\* Struggling: the penalty is at its maximum, too few are feasible, and the
\* violations do not get less.  (Whether exactly the target, at zero
\* tolerance, is too few, is left open.)
Struggles(p, dim, v) ==
  LET s == Append(dim.win, v)
  IN  Full(p, dim) /\ dim.pen >= p.hi /\ dim.prev # NONE /\ Sum(s) >= dim.prev
MustWarn(p, dim, v) == Struggles(p, dim, v) /\ TooFew(p, Append(dim.win, v))
MayWarn(p, dim, v) == Struggles(p, dim, v) /\ Diff(p, Append(dim.win, v)) >= p.tol * p.w

ParamsOk(q) ==
  /\ q.w >= 1
  /\ q.inc >= 16
  /\ q.dec >= 0 /\ q.dec <= 16
  /\ q.tgt >= 0 /\ q.tgt <= 16
  /\ q.tol >= 0 /\ q.tol <= 16
  /\ q.lo >= 0
  /\ q.hi >= q.lo
=============================================================================
