-------------------------------- MODULE Prob --------------------------------
(***************************************************************************)
(* Discrete belief networks with rational tables, by enumeration.          *)
(*                                                                         *)
(* A net has n variables numbered so that parents precede children,        *)
(* dom[v] values, parents pa[v] (a sequence), and for every row of the     *)
(* table of v integer weights w[v][row] that add up to D[v]; rows are      *)
(* numbered in mixed radix with the first parent most significant.  The    *)
(* probability of a value in a row is weight / D[v].                       *)
(*                                                                         *)
(* A graded net has numbers g[v][row][k] too: the probability is then      *)
(* weight / D[v] times an infinitesimal to the power g.  Sums are then     *)
(* determined, up to rounding, by their terms of least grade (a tropical   *)
(* semiring), which is how the specification speaks of probabilities that  *)
(* are too small for its integers.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

(* Row of the table of v that the (partial) assignment x selects. *)
Row(net, v, x) ==
  FoldLeft(LAMBDA acc, p : acc * net.dom[p] + (x[p] - 1), 0, net.pa[v]) + 1

Weight(net, v, x, k) == net.w[v][Row(net, v, x)][k]

(* Evidence is a sequence of n numbers, 0 where nothing is observed. *)
NoEvidence(net) == [v \in 1..net.n |-> 0]
Agrees(ev, v, k) == ev[v] = 0 \/ ev[v] = k

Grade(net, v, r, k) == IF "g" \in DOMAIN net THEN net.g[v][r][k] ELSE 0

(* The assignments of positive weight that agree with ev, each with its weight,  *)
(* as a set of records.  Built variable by variable, dropping zeros on the way.  *)
RECURSIVE SupportUpTo(_, _, _)
SupportUpTo(net, ev, v) ==
  IF v = 0 THEN { [x |-> << >>, w |-> 1, g |-> 0] }
  ELSE UNION { LET r == Row(net, v, s.x)
                   row == net.w[v][r]
               IN  { [x |-> Append(s.x, k), w |-> s.w * row[k], g |-> s.g + Grade(net, v, r, k)] :
                     k \in { j \in 1..net.dom[v] : row[j] > 0 /\ Agrees(ev, v, j) } }
             : s \in SupportUpTo(net, ev, v - 1) }

Support(net, ev) == SupportUpTo(net, ev, net.n)

(* The assignments that determine sums: those of least grade. *)
Leading(S) == LET m == TLCEval(Min({ s.g : s \in S })) IN { s \in S : s.g = m }

SumW(S) == FoldSet(LAMBDA s, acc : s.w + acc, 0, S)

(* Weight of "v has value k" within a support. *)
MarginalW(S, v, k) == SumW({ s \in S : s.x[v] = k })

(* num/den = a/b for b > 0, without overflow for all numbers below 46341. *)
SameRatio(num, den, a, b) == den > 0 /\ num * b = a * den

Abs(x) == IF x < 0 THEN -x ELSE x

RECURSIVE ProductSeq(_)
ProductSeq(s) == IF s = << >> THEN 1 ELSE Head(s) * ProductSeq(Tail(s))

(* A net is well formed. *)
IsNet(net) ==
  /\ \A v \in 1..net.n :
       /\ \A i \in 1..Len(net.pa[v]) : net.pa[v][i] \in 1..(v - 1)
       /\ Cardinality({ net.pa[v][i] : i \in 1..Len(net.pa[v]) }) = Len(net.pa[v])
       /\ \A r \in 1..Len(net.w[v]) :
            /\ Len(net.w[v][r]) = net.dom[v]
            /\ FoldLeft(LAMBDA a, k : IF Grade(net, v, r, k) = 0 THEN a + net.w[v][r][k] ELSE a, 0, [k \in 1..net.dom[v] |-> k]) = net.D[v]
            /\ \A k \in 1..net.dom[v] : net.w[v][r][k] >= 0
=============================================================================
