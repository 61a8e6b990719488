------------------------------- MODULE MCRing -------------------------------
(***************************************************************************)
(* All histories of a ring buffer, checked against the other way to        *)
(* describe it: without skips, its head is the value appended maxlen       *)
(* appends ago.                                                            *)
(***************************************************************************)
EXTENDS Basics, TLC, Json
CONSTANTS MaxLen, Depth, Emit

VARIABLES n, q, h
Init == n \in 1 .. MaxLen /\ q = RingNew(n) /\ h = <<>>
Ops == { [k |-> "append", v |-> Len(h) + 1], [k |-> "skip"], [k |-> "clear"] }
Next == /\ Len(h) < Depth
        /\ \E op \in Ops : q' = RingOp(q, op) /\ h' = Append(h, op)
        /\ UNCHANGED n

\* the history since the last clear
Since == LET C == { k \in 1 .. Len(h) : h[k].k = "clear" }
             m == IF C = {} THEN 0 ELSE CHOOSE k \in C : \A j \in C : j <= k
         IN  SubSeq(h, m + 1, Len(h))
HeadIsOldest ==
  LET s == Since IN
  (\A k \in 1 .. Len(s) : s[k].k = "append") =>
     RingPeek(q) = (IF Len(s) < n THEN 0 ELSE s[Len(s) - n + 1].v)
Size == LET s == Since IN
        /\ Len(q) = n
        /\ RingLen(q) <= n
        /\ RingLen(q) <= Cardinality({ k \in 1 .. Len(s) : s[k].k = "append" })
EmitOk == (Emit /\ Len(h) = Depth) => PrintT(ToJson([n |-> n, h |-> h]))
=============================================================================
