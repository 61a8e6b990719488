---------------------------- MODULE MCLifetimes ----------------------------
(***************************************************************************)
(* The mechanism that keeps objects valid: each object refers to those it  *)
(* was obtained from, and an object's memory is released when nothing      *)
(* refers to it.  The memory of exactly the needed objects is there at all *)
(* times, for every way to obtain an object of any kind and every order of *)
(* dropping what was needed to get there.  Also prints these histories.    *)
(***************************************************************************)
EXTENDS Lifetimes, TLC, Json, SequencesExt
CONSTANTS Emit

RECURSIVE Closure(_)
Closure(k) == {k} \cup UNION { Closure(x) : x \in Sources[k] }

\* What to obtain, in which order, to get an object of kind k.
RECURSIVE Recipe(_)
Recipe(K) ==
  IF K = {} THEN <<>>
  ELSE LET k == CHOOSE k \in K : \A x \in K : k \notin Sources[x]
       IN  Append(Recipe(K \ {k}), k)

VARIABLES plan, s, refs, freed, h
vars == <<plan, s, refs, freed, h>>

Init == /\ plan \in { Recipe(Closure(k)) : k \in Kinds }
        /\ s = <<>> /\ refs = <<>> /\ freed = {} /\ h = <<>>

Pos(k) == CHOOSE i \in 1 .. Len(plan) : plan[i] = k
From(k) == { Pos(x) : x \in Sources[k] }

Obtain ==
  /\ Len(s) < Len(plan)
  /\ LET k == plan[Len(s) + 1] IN
     /\ CanMake(s, k, From(k))
     /\ s' = Make(s, k, From(k))
     /\ refs' = Append([i \in 1 .. Len(s) |-> refs[i] + (IF i \in From(k) THEN 1 ELSE 0)], 1)
     /\ h' = Append(h, [op |-> "make", k |-> k, from |-> SetToSeq(From(k))])
  /\ UNCHANGED <<plan, freed>>

\* One reference to i less: releases its memory if that was the last, and with
\* it the references that it had.
RECURSIVE Release(_, _, _)
Release(r, f, I) ==
  IF I = {} THEN [refs |-> r, freed |-> f]
  ELSE LET i == CHOOSE i \in I : \A j \in I : j <= i
           rr == [r EXCEPT ![i] = @ - 1]
           x == Release(rr, f, I \ {i})
       IN  IF rr[i] > 0 THEN x
           ELSE LET y == Release(rr, f \cup {i}, s[i].from)
                IN  Release(y.refs, y.freed, I \ {i})

Let ==
  \E i \in 1 .. Len(s) :
     /\ CanDrop(s, i)
     \* still needed to go on with the plan
     /\ \A j \in Len(s) + 1 .. Len(plan) : plan[i] \notin Sources[plan[j]]
     /\ (i = Len(plan) => \A j \in 1 .. i - 1 : ~s[j].held)
     /\ s' = Drop(s, i)
     /\ LET x == Release(refs, freed, {i}) IN refs' = x.refs /\ freed' = x.freed
     /\ h' = Append(h, [op |-> "drop", i |-> i])
     /\ UNCHANGED plan

Alter ==
  /\ Len(s) = Len(plan)
  /\ h[Len(h)].op = "make"
  /\ \E i \in 1 .. Len(s) :
     /\ s[i].held
     /\ i = Len(s) \/ (Len(s) <= 4 /\ s[i].k \in Own)
     /\ \A j \in i .. Len(s) : s[j].k \notin Iterators
     /\ s' = Change(s, i)
     /\ h' = Append(h, [op |-> "change", i |-> i])
  /\ UNCHANGED <<plan, refs, freed>>

Next == Obtain \/ Let \/ Alter

ExactlyNeeded == \A i \in 1 .. Len(s) : i \in freed <=> ~Needed(s, i)
NothingHeldDangles ==
  \A i \in 1 .. Len(s) : s[i].held => i \notin freed /\ s[i].from \cap freed = {}
AllFreedInTheEnd ==
  (Len(s) = Len(plan) /\ \A i \in 1 .. Len(s) : ~s[i].held) => freed = 1 .. Len(s)
EmitOk == (Emit /\ Len(s) = Len(plan) /\ \A i \in 1 .. Len(s) : ~s[i].held) => PrintT(ToJson([h |-> h]))
=============================================================================
