------------------------------ MODULE MCPenalty ------------------------------
(* All registration histories of one penalty, for a range of parameters.  *)
EXTENDS Penalty, TLC, Json
CONSTANTS MaxN, Emit

Params == { q \in [ w : {1, 2, 3}, inc : {16, 24, 32}, dec : {0, 8, 16},
                    tgt : {0, 8, 16}, tol : {0, 4, 16}, lo : {0, 512}, hi : {2048} ] :
              (q.inc = 32) = (q.dec = 8) }

VARIABLES p, init, dim, hist
vars == <<p, init, dim, hist>>

Init ==
  /\ p \in Params
  /\ init \in {256, 1024, 4096}
  /\ dim = StartDim(p, init)
  /\ hist = <<>>

Next ==
  /\ Len(hist) < MaxN
  /\ \E v \in 0 .. 2 :
       LET s == Append(dim.win, v)
           post == IF Full(p, dim) THEN Updated16(p, dim.pen, s) \div 16 ELSE dim.pen
       IN  /\ dim' = Register(p, dim, v, post)
           /\ hist' = Append(hist, v)
  /\ UNCHANGED <<p, init>>

Spec == Init /\ [][Next]_vars

TypeOk == ParamsOk(p) /\ Len(dim.win) < p.w
Bounded == dim.pen >= p.lo /\ dim.pen <= p.hi
OnlyAtWindowEnd == [][dim'.pen # dim.pen => Len(hist') % p.w = 0]_vars
\* The direction follows the feasibility of the last w registrations.
Window == SubSeq(hist', Len(hist') - p.w + 1, Len(hist'))
Direction ==
  [][ /\ dim'.pen > dim.pen => TooFew(p, Window)
      /\ dim'.pen < dim.pen => TooMany(p, Window) ]_vars
Exclusive == Len(dim.win) # 0 \/ hist = <<>> \/
  LET s == SubSeq(hist, Len(hist) - p.w + 1, Len(hist)) IN ~(TooFew(p, s) /\ TooMany(p, s))
EmitOk == (Emit /\ Len(hist) = MaxN) => PrintT(ToJson([p |-> p, init |-> init, hist |-> hist]))
=============================================================================
