-------------------------------- MODULE MCStop --------------------------------
(* All call histories of single and combined criteria.                       *)
EXTENDS Stop, TLC, Json
CONSTANTS MaxN, Emit

Iters(n) == [k |-> "iters", n |-> n]
NoImp(n) == [k |-> "noimp", n |-> n]
Feas == [k |-> "feas"]
Time(n) == [k |-> "time", n |-> n]
AnyOf(cs) == [k |-> "any", cs |-> cs]
Criteria ==
  { Iters(n) : n \in 0 .. 3 } \cup { NoImp(n) : n \in 0 .. 3 } \cup { Feas }
  \cup { Time(n) : n \in 0 .. 2 }
  \cup { AnyOf(<<Iters(3), NoImp(2)>>), AnyOf(<<NoImp(1), Time(2)>>), AnyOf(<<Feas, NoImp(2)>>),
         AnyOf(<<NoImp(3)>>), AnyOf(<<Iters(4), AnyOf(<<NoImp(2), Time(1)>>)>>) }

Costs == { [cost |-> 1, feas |-> TRUE], [cost |-> 2, feas |-> TRUE], [cost |-> 9, feas |-> FALSE] }

VARIABLES c, s, h
Init == c \in Criteria /\ s = Start(c) /\ h = <<>>
Next ==
  /\ Len(h) < MaxN
  /\ \E x \in Costs, dt \in 0 .. 1 :
       LET t == (IF h = <<>> THEN 5 ELSE h[Len(h)].t) + dt
           e == [cost |-> x.cost, feas |-> x.feas, t |-> t]
       IN  s' = Call(c, s, e) /\ h' = Append(h, e)
  /\ UNCHANGED c

Agrees == h # <<>> => s.out = Must(c, h)
Open == h # <<>> => (Must(c, h) => May(c, h))
EmitOk == (Emit /\ Len(h) = MaxN) => PrintT(ToJson([c |-> c, h |-> h]))
=============================================================================
