------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* Solver settings: their defaults, which values are acceptable, what a    *)
(* settings file means, and when settings are equal.  Fractions are given  *)
(* in thousandths.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Groups == {"ils", "penalty", "neighbourhood", "perturbation"}

Defaults(g) ==
  CASE g = "ils" -> [num_iters_no_improvement |-> 150000, history_length |-> 300, exhaustive_on_best |-> TRUE]
    [] g = "penalty" ->
         [solutions_between_updates |-> 500, penalty_increase |-> 1500, penalty_decrease |-> 900,
          target_feasible |-> 650, feas_tolerance |-> 50, min_penalty |-> 100, max_penalty |-> 100000000]
    [] g = "neighbourhood" -> [weight_wait_time |-> 200, num_neighbours |-> 50, symmetric_proximity |-> TRUE]
    [] g = "perturbation" -> [min_perturbations |-> 1, max_perturbations |-> 25]

\* Given settings override the defaults; other names are not understood.
Full(g, given) == given @@ Defaults(g)
Known(g, given) == DOMAIN given \subseteq DOMAIN Defaults(g)

Share(x) == 0 <= x /\ x <= 1000
Valid(g, s) ==
  CASE g = "ils" -> s.num_iters_no_improvement >= 0 /\ s.history_length > 0
    [] g = "penalty" ->
         /\ s.solutions_between_updates >= 1 /\ s.penalty_increase >= 1000
         /\ Share(s.penalty_decrease) /\ Share(s.target_feasible) /\ Share(s.feas_tolerance)
         /\ s.min_penalty >= 0 /\ s.max_penalty >= s.min_penalty
    [] g = "neighbourhood" -> s.num_neighbours > 0
    [] g = "perturbation" -> s.min_perturbations >= 0 /\ s.max_perturbations >= s.min_perturbations

Accepts(g, given) == Known(g, given) /\ Valid(g, Full(g, given))

AllOperators ==
  <<"Relocate1", "Relocate2", "Swap11", "Swap21", "Swap22", "SwapTails", "RelocateAlternative",
    "RelocatePickup", "RelocateDelivery", "RelocateWithDepot", "RemoveAdjacentDepot",
    "RemoveOptionalClient", "InsertOptionalClient", "ReplaceOptionalClient", "RemoveOptionalShipment",
    "InsertOptionalShipment", "ReplaceOptionalShipment", "ReplaceGroup", "RelocateShipment">>

\* A settings file: [ils, penalty, neighbourhood, perturbation] as given (possibly
\* empty), has (which of ops and disp are given), ops, disp.
FileAccepted(f) ==
  /\ \A g \in Groups : Accepts(g, f[g])
  /\ f.hasOps => \A k \in 1 .. Len(f.ops) : \E j \in 1 .. Len(AllOperators) : AllOperators[j] = f.ops[k]
FileMeans(f) ==
  [ils |-> Full("ils", f.ils), penalty |-> Full("penalty", f.penalty),
   neighbourhood |-> Full("neighbourhood", f.neighbourhood),
   perturbation |-> Full("perturbation", f.perturbation),
   disp |-> IF f.hasDisp THEN f.disp ELSE 5000]
SameOps(a, b) == \A x \in {a[k] : k \in 1 .. Len(a)} \cup {b[k] : k \in 1 .. Len(b)} :
  (\E k \in 1 .. Len(a) : a[k] = x) = (\E k \in 1 .. Len(b) : b[k] = x)
=============================================================================
