------------------------------- MODULE Basics -------------------------------
(***************************************************************************)
(* The abstract types behind PyVRP's building blocks (C24): finite sets,   *)
(* a rotating queue, piecewise linear functions, the xor128 generator and  *)
(* the activity notation.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Bitwise

(***************************** bitset: a finite set ************************)
Block == 64
Universe(n) == 0 .. (((n + Block - 1) \div Block) * Block) - 1

\* State: registers, a sequence of [n, s]: number of bits asked for, members.
SetOp(regs, op) ==
  LET r == regs[op.r]
      x == regs[op.x]
      y == regs[op.y]
      new == CASE op.k = "put"    -> IF op.i \in Universe(r.n) THEN r.s \cup {op.i} ELSE r.s
               [] op.k = "drop"   -> IF op.i \in Universe(r.n) THEN r.s \ {op.i} ELSE r.s
               [] op.k = "or"     -> x.s \cup y.s
               [] op.k = "and"    -> x.s \cap y.s
               [] op.k = "xor"    -> (x.s \ y.s) \cup (y.s \ x.s)
               [] op.k = "not"    -> Universe(x.n) \ x.s
               [] op.k = "set"    -> Universe(r.n)
               [] op.k = "reset"  -> {}
               [] op.k = "copy"   -> x.s
  IN  [regs EXCEPT ![op.r] = [n |-> IF op.k \in {"or", "and", "xor", "not", "copy"}
                                    THEN x.n ELSE r.n, s |-> new]]

\* put and drop raise IndexError outside of the universe.
SetRaises(regs, op) == op.k \in {"put", "drop"} /\ op.i \notin Universe(regs[op.r].n)

(************************* ring buffer: a rotating queue *******************)
\* q is a sequence of maxlen cells, 0 for an empty one; its head is the cell
\* that is overwritten next.
RingNew(n) == [k \in 1 .. n |-> 0]
RingOp(q, op) ==
  CASE op.k = "append" -> Append(Tail(q), op.v)
    [] op.k = "skip"   -> Append(Tail(q), Head(q))
    [] op.k = "clear"  -> RingNew(Len(q))
RingLen(q) == Cardinality({ k \in 1 .. Len(q) : q[k] # 0 })
RingPeek(q) == Head(q)

(************************* piecewise linear functions **********************)
Adjacent(p) == { k \in 1 .. Len(p) - 1 : p[k][1] # p[k + 1][1] }
Divides(a, b) == b % a = 0     \* a > 0
PointsOk(p) ==
  /\ Len(p) >= 2
  /\ p[1][1] # p[2][1]
  /\ p[Len(p) - 1][1] # p[Len(p)][1]
  /\ \A k \in 1 .. Len(p) - 1 : p[k][1] <= p[k + 1][1]
  /\ \A k \in Adjacent(p) : Divides(p[k + 1][1] - p[k][1], p[k + 1][2] - p[k][2])

Slope(p, k) == (p[k + 1][2] - p[k][2]) \div (p[k + 1][1] - p[k][1])

\* The line in force at x: that of the last pair of points starting at or
\* before x, or the very first one.
LineAt(p, x) ==
  LET S == { k \in Adjacent(p) : p[k][1] <= x }
  IN  IF S = {} THEN 1 ELSE CHOOSE k \in S : \A j \in S : j <= k
PointsAt(p, x) == LET k == LineAt(p, x) IN p[k][2] + Slope(p, k) * (x - p[k][1])
PointsRising(p) ==
  /\ \A k \in Adjacent(p) : Slope(p, k) >= 0
  /\ \A a, b \in 1 .. Len(p) :     \* jumps
       (/\ a < b /\ p[a][1] = p[b][1]
        /\ (a = 1 \/ p[a - 1][1] # p[a][1])
        /\ (b = Len(p) \/ p[b + 1][1] # p[b][1])) => p[a][2] <= p[b][2]
\* breakpoints and lines that represent the same function
PointsBreaks(p) == LET S == SetToSortSeq(Adjacent(p), LAMBDA a, b : a < b)
                   IN  [k \in 1 .. Len(S) - 1 |-> p[S[k + 1]][1]]
PointsLines(p) == LET S == SetToSortSeq(Adjacent(p), LAMBDA a, b : a < b)
                  IN  [k \in 1 .. Len(S) |-> <<p[S[k]][2] - Slope(p, S[k]) * p[S[k]][1],
                                               Slope(p, S[k])>>]

LinesOk(b, l) == /\ Len(l) >= 1
                 /\ Len(l) = Len(b) + 1
                 /\ \A k \in 1 .. Len(b) - 1 : b[k] < b[k + 1]
LinesAt(b, l, x) ==
  LET k == 1 + Cardinality({ j \in 1 .. Len(b) : b[j] <= x })
  IN  l[k][1] + l[k][2] * x
LinesRising(b, l) ==
  /\ \A k \in 1 .. Len(l) : l[k][2] >= 0
  /\ \A k \in 1 .. Len(b) : l[k][1] + l[k][2] * b[k] <= l[k + 1][1] + l[k + 1][2] * b[k]

(***************** Marsaglia's xor128, on <<high, low>> words **************)
W == 65536
Xor32(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
Shl11(a) == <<((a[1] * 2048) % W) + (a[2] \div 32), (a[2] * 2048) % W>>
Shr8(a)  == <<a[1] \div 256, ((a[1] % 256) * 256) + (a[2] \div 256)>>
Shr19(a) == <<0, a[1] \div 8>>

\* The generator keeps its four words newest first.
Draw(st) ==
  LET t == Xor32(st[4], Shl11(st[4]))
      u == Xor32(t, Shr8(t))
      s == st[1]
      r == Xor32(Xor32(u, s), Shr19(s))
  IN  <<r, st[1], st[2], st[3]>>
Seeded(seed) == <<seed, <<1883, 52501>>, <<5530, 21989>>, <<7954, 15285>>>>
ModOf(a, h) == ((a[1] % h) * (W % h) + (a[2] % h)) % h   \* h * h < 2^31
=============================================================================
