-------------------------------- MODULE Learn --------------------------------
(***************************************************************************)
(* What the structure learners promise.  A request r has d variables and   *)
(* p lags (p = 0 for the static learners); lag 0 is the present.  Columns  *)
(* of the data: column i + l*d is variable i at lag l (i in 1..d).  Edges  *)
(* of a result lead from a variable at some lag to a variable at lag 0:    *)
(* [i, l, j, w] with weights in units of 1/Unit.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, TLC

Unit == 10000
Mag(x) == IF x < 0 THEN -x ELSE x
In(x, s) == \E k \in 1..Len(s) : s[k] = x

(* ------------------------------ constraints ---------------------------- *)
Allowed(r, l, i, j) ==
  /\ l # 0 \/ i # j
  /\ ~In(<<l, i, j>>, r.tE)
  /\ ~In(i, r.tP)
  /\ ~In(j, r.tC)

RECURSIVE ReachIn(_, _)
ReachIn(E, V) == LET W == TLCEval(V \cup { e[2] : e \in { x \in E : x[1] \in V } }) IN IF W = V THEN V ELSE ReachIn(E, W)
Acyclic(E) == \A e \in E : e[1] \notin ReachIn(E, {e[2]})

AllowedNow(r) == { x \in (1..r.d) \X (1..r.d) : Allowed(r, 0, x[1], x[2]) }
Ordered(r) == Acyclic(AllowedNow(r))

(* ------------------------------ stationarity --------------------------- *)
GramLags(r) == LET c == r.d * (r.p + 1) n == Len(r.Z)
           IN  TLCEval([a \in 1..c |-> TLCEval([b \in 1..c |-> FoldLeft(LAMBDA s, k : s + r.Z[k][a] * r.Z[k][b], 0, [k \in 1..n |-> k])])])

LagOf(r, a) == (a - 1) \div r.d
VarOf(r, a) == ((a - 1) % r.d) + 1
WeightOf(E, r, a, j) == LET s == { e \in E : e[1] = VarOf(r, a) /\ e[2] = LagOf(r, a) /\ e[3] = j } IN IF s = {} THEN 0 ELSE (CHOOSE e \in s : TRUE)[4]
Penalty(r, a) == IF LagOf(r, a) = 0 THEN r.penW ELSE r.penA    \* in hundredths

(* The least-squares equation of column a for target j: X_a . (X_j - Z w_j), *)
(* in units of 1/Unit; the optimum has it equal to n * penalty * sign(w_aj).  *)
Equation(r, G, E, a, j) ==
  LET c == r.d * (r.p + 1)
  IN  G[a][j] * Unit - FoldLeft(LAMBDA s, b : s + G[a][b] * WeightOf(E, r, b, j), 0, [b \in 1..c |-> b])
Slack(r, G, a) ==
  LET c == r.d * (r.p + 1)
  IN  FoldLeft(LAMBDA s, b : s + Mag(G[a][b]), 0, [b \in 1..c |-> b])     \* weights are rounded
      + Max({ G[b][b] : b \in 1..c }) * (Unit \div 500)                     \* the optimiser is not exact: 0.2% of the curvature
Stationary(r, G, E, a, j) ==
  LET q == Equation(r, G, E, a, j)
      f == Len(r.Z) * Penalty(r, a) * (Unit \div 100)
      w == WeightOf(E, r, a, j)
      s == Slack(r, G, a)
  IN  IF w > 100 THEN Mag(q - f) <= s
      ELSE IF w < -100 THEN Mag(q + f) <= s
      ELSE Mag(q) <= f + s
=============================================================================
