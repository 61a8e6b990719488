------------------------------- MODULE Copies -------------------------------
(***************************************************************************)
(* When objects are the same (C22).  Data objects are the values of their  *)
(* fields.  A route of an instance is its vehicle type and activities; a   *)
(* solution of an instance is a bag of routes.  Copies are                 *)
(* indistinguishable from their originals.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* Everything two objects report, field by field.
Differences(a, b) ==
  { f \in DOMAIN a \cup DOMAIN b : ~(f \in DOMAIN a /\ f \in DOMAIN b /\ a[f] = b[f]) }

SameRoute(r, s) == r.v = s.v /\ r.acts = s.acts
SameBag(p, q) ==
  /\ Len(p) = Len(q)
  /\ \A k \in 1 .. Len(p) :
       Cardinality({ j \in 1 .. Len(p) : SameRoute(p[j], p[k]) })
       = Cardinality({ j \in 1 .. Len(q) : SameRoute(q[j], p[k]) })

Same(kind, a, b) ==
  CASE kind = "route" -> SameRoute(a, b)
    [] kind = "solution" -> SameBag(a, b)
    [] kind = "scheduled" -> a.t = b.t /\ a.i = b.i   \* compares as the activity it is
    [] OTHER -> a = b
=============================================================================
