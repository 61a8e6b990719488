----------------------------- MODULE MCProgress -----------------------------
(* All short display histories.                                             *)
EXTENDS Progress, Json
CONSTANTS MaxN, Emit

VARIABLES p, s, now, hist, out
vars == <<p, s, now, hist, out>>
\* cost of the best solution only gets better, and stays feasible
Rows == { [bc |-> c, bf |-> f] : c \in 1 .. 3, f \in BOOLEAN }

Init ==
  /\ p \in [on : BOOLEAN, stats : BOOLEAN, every : {0, 8, 12}]
  /\ now = 0 /\ s = Begin(0) /\ hist = <<>> /\ out = <<>>

Iterate ==
  \E r \in Rows, dt \in {0, 4, 8} :
    LET t == now + dt
        x == [n |-> Len(hist) + 1, time |-> t, cc |-> 7, cf |-> FALSE, dc |-> 8, df |-> TRUE,
              bc |-> r.bc, bf |-> r.bf]
    IN  /\ now' = t
        /\ hist' = Append(hist, x)
        /\ s' = AfterIter(p, s, x, t)
        /\ out' = IF Due(p, s, t) THEN Append(out, [line |-> Shown(s, x), t |-> t]) ELSE out
        /\ UNCHANGED p

Next == Len(hist) < MaxN /\ Iterate
Spec == Init /\ [][Next]_vars

Quiet == (~p.on \/ ~p.stats) => out = <<>>
Spaced == \A i \in 1 .. Len(out) :
            out[i].t - (IF i = 1 THEN 0 ELSE out[i - 1].t) >= p.every
\* no iteration is held back for longer than the interval
Prompt == (p.on /\ p.stats /\ hist # <<>>) =>
            \A i \in 1 .. Len(hist) :
              \E k \in 0 .. Len(out) :
                 LET t == IF k = 0 THEN 0 ELSE out[k].t
                 IN  t <= hist[i].time /\ (hist[i].time - t < p.every \/ t = hist[i].time)
MarksImprove ==
  \A i, j \in 1 .. Len(out) :
    i < j /\ out[i].line.mark /\ out[j].line.mark => out[j].line.bc < out[i].line.bc
MarksFeasible == \A i \in 1 .. Len(out) : out[i].line.mark => out[i].line.bf = "Y"
Everything == p.on /\ p.stats /\ p.every = 0 => Len(out) = Len(hist)

EmitOk == (Emit /\ Len(hist) = MaxN) => PrintT(ToJson([p |-> p, h |-> hist]))
=============================================================================
