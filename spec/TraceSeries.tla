------------------------------ MODULE TraceSeries ------------------------------
(***************************************************************************)
(* C29.  Time series generated from a dynamic structure.  c.n variables    *)
(* (from 0), c.p lags, c.now: <<u, v, 4 * weight>> within a time point,    *)
(* c.past: <<u, lag, v, 4 * weight>>.  Values are in thousandths;          *)
(* c.have: the nodes of the graph, <<variable, lag>>; e.cols[k] is the one  *)
(* of column k.                                                            *)
(***************************************************************************)
EXTENDS TraceBase, Generators

TSt0(c) == 0
AsSet(s) == { s[k] : k \in 1..Len(s) }
Col(e, v, l) == CHOOSE k \in 1..Len(e.cols) : e.cols[k] = << v, l >>
Slots(c) == AsSet(c.have)
Layout(c, e) == AsSet(e.cols) = Slots(c) /\ Len(e.cols) = Len(c.have) /\ Len(e.rows) = e.n
(* Row t knows the past as the rows before it do. *)
Consistent(c, e) ==
  LET K == TLCEval([s \in Slots(c) |-> Col(e, s[1], s[2])]) IN
  \A s, b \in Slots(c) : (s[1] = b[1] /\ s[2] > b[2]) =>
    \A t \in (1 + s[2] - b[2])..Len(e.rows) : AbsOf(e.rows[t][K[s]] - e.rows[t - s[2] + b[2]][K[b]]) <= 1
(* Four times what is left of a value after drift and weighted causes. *)
Left(c, e, K, t, v) ==
  LET row == e.rows[t] IN
  4 * (row[K[<< v, 0 >>]] - e.drift[v + 1])
  - FoldSet(LAMBDA x, acc : acc + x[3] * row[K[<< x[1], 0 >>]], 0, { y \in AsSet(c.now) : y[2] = v })
  - FoldSet(LAMBDA x, acc : acc + x[4] * row[K[<< x[1], x[2] >>]], 0, { y \in AsSet(c.past) : y[3] = v })
Equations(c, e) ==
  LET K == TLCEval([s \in Slots(c) |-> Col(e, s[1], s[2])]) IN
  \A t \in 1..Len(e.rows) : \A v \in { u \in 0..(c.n - 1) : << u, 0 >> \in Slots(c) } :
     IF e.noiseless THEN AbsOf(Left(c, e, K, t, v)) <= 24
     ELSE e.kind = "linear-exp" => Left(c, e, K, t, v) >= -24
NoiseMean(d) == CASE d = "linear-exp" -> 1000 [] d = "linear-gumbel" -> 577 [] OTHER -> 0
NoiseVar(d) == CASE d = "linear-gumbel" -> 1645 [] OTHER -> 1000
MomentsRight(e) ==
  /\ AbsOf(e.mean - (NoiseMean(e.kind) * e.sd) \div 10) <= 8 * e.sd + 2
  /\ AbsOf(e.var - (NoiseVar(e.kind) * e.sd * e.sd) \div 100) <= ((NoiseVar(e.kind) * e.sd * e.sd) \div 100) \div 5 + 2

Kinds == {"linear-gauss", "linear-exp", "linear-gumbel"}
TJudge(c, st, e) ==
  IF e.out \notin {"ok", "raise"} THEN "no-outcome"
  ELSE IF e.op = "moments" THEN (IF e.out = "ok" /\ MomentsRight(e) THEN "ok" ELSE "wrong-distribution")
  ELSE IF ~e.unchanged THEN "argument-changed"
  ELSE IF e.op = "series" THEN
         IF e.kind \notin Kinds THEN (IF e.out = "ok" THEN "invalid-request-accepted" ELSE IF e.exc = "ValueError" THEN "ok" ELSE "wrong-exception")
         ELSE IF e.out = "raise" THEN "valid-request-refused"
         ELSE IF ~Layout(c, e) THEN "wrong-layout"
         ELSE IF ~Consistent(c, e) THEN "past-does-not-match"
         ELSE IF ~Equations(c, e) THEN "not-the-structural-equations"
         ELSE "ok"
  ELSE IF e.op = "stationary" THEN
         IF e.out = "raise" THEN "valid-request-refused"
         ELSE IF ~(Layout(c, e) /\ e.names /\ AsSet(e.lagged) = Slots(c)) THEN "wrong-layout"
         ELSE IF ~(\A x \in AsSet(e.edges) : x[4] = 0) THEN "wrong-structure"   \* <<u, lag, v, lag of v>>
         ELSE IF e.warned THEN (IF \A t \in 1..Len(e.rows) : \A k \in 1..Len(e.cols) : e.rows[t][k] = 1000 THEN "ok" ELSE "not-constant")
         ELSE IF ~Consistent(c, e) THEN "past-does-not-match"
         ELSE IF \E t \in 1..Len(e.rows) : \E k \in 1..Len(e.cols) : AbsOf(e.rows[t][k]) >= 1000000 THEN "not-stationary"
         ELSE "ok"
  ELSE "unknown-event"
TStNext(c, st, e) == st
=============================================================================
