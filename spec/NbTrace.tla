------------------------------- MODULE NbTrace -------------------------------
(* Judges recorded neighbourhoods.                                           *)
EXTENDS Neighbours, Json, IOUtils, TLC
CONSTANT NCHUNK

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
Bad(cond, name) == IF cond THEN {} ELSE {name}

ListOk(d, q, a, nb) ==
  LET here == { nb[k] : k \in 1 .. Len(nb) }
      prox == [b \in Others(d, a) |-> Proximity(d, a, b, q)]
  IN  IF ~(here \subseteq Others(d, a)) THEN {"not-a-neighbour"}
      ELSE Bad(Cardinality(here) = Len(nb), "repeated")
           \cup Bad(Len(nb) >= AtLeast(d, q) /\ Len(nb) <= AtMost(d, a, q), "size")
           \cup Bad(\A k \in 1 .. Len(nb) - 1 : prox[nb[k]] <= prox[nb[k + 1]], "order")
           \cup Bad(\A b \in Others(d, a) \ here : \A x \in here : prox[x] <= prox[b], "nearest")

NbOk(c) ==
  Bad(/\ { c.nbs[k].a : k \in 1 .. Len(c.nbs) } = From(c.d)
      /\ Len(c.nbs) = Cardinality(From(c.d)), "activities")
  \cup UNION { ListOk(c.d, c.q, c.nbs[k].a, c.nbs[k].nb) : k \in 1 .. Len(c.nbs) }

Verdict(c) ==
  IF "exc" \in DOMAIN c THEN {"unexpected-exception"}
  ELSE IF c.kind = "params" THEN Bad(c.ok = (c.num > 0), "parameters")
  ELSE NbOk(c)

VARIABLES lane, pos
INSTANCE Batch
=============================================================================
