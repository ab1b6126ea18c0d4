----------------------------- MODULE TraceNetwork -----------------------------
(***************************************************************************)
(* C25 and C26.  Histories of a Bayesian network: made from a structure,   *)
(* given states, fitted, asked for its tables and for predictions.         *)
(***************************************************************************)
EXTENDS TraceBase, Network

VarsOf(c) == 1..c.n
EdgeSet(es) == { << es[k][1], es[k][2] >> : k \in 1..Len(es) }
RangeOf(s) == { s[k] : k \in 1..Len(s) }
Parents(c, v) == Preds(EdgeSet(c.edges), {v})

TSt0(c) == [ states |-> << >>, fitted |-> FALSE, fit |-> [kind |-> "none", ess |-> 0], data |-> << >>, fresh |-> FALSE ]

(* m[v]: the states given for v, << >> with have[v] = FALSE if v is missing. *)
GoodStates(c, e) == (\A v \in VarsOf(c) : e.have[v]) /\ ~e.null
NewStates(c, e) == [v \in VarsOf(c) |-> RangeOf(e.m[v])]
ValidFit(e) == e.fit.kind \in {"mle", "k2", "bdeu"}

Table(c, st, t) ==   \* t: [v, order, rows, cols, p]
  LET ps == Parents(c, t.v)
      U(col) == [p \in ps |-> col[CHOOSE j \in 1..Len(t.order) : t.order[j] = p]]
  IN  /\ RangeOf(t.order) = ps /\ Len(t.order) = Cardinality(ps)
      /\ RangeOf(t.rows) = st.states[t.v] /\ Len(t.rows) = Cardinality(st.states[t.v])
      /\ { U(t.cols[k]) : k \in 1..Len(t.cols) } = Combos(st.states, ps)
      /\ Len(t.cols) = Cardinality(Combos(st.states, ps))
      /\ \A i \in 1..Len(t.rows) : \A j \in 1..Len(t.cols) :
           SameRatio(t.p[i][j], Fitted(st.fit, st.data, st.states, ps, t.v, t.rows[i], U(t.cols[j])))

(* Predictions. *)
Complete(c, v, row) == \A p \in Parents(c, v) : row[p] # 0
Here(c, v, row) == [p \in Parents(c, v) |-> row[p]]
Denoms(c, st) == [v \in VarsOf(c) |-> Common(st.fit, st.data, st.states, Parents(c, v), v)]
Pas(c) == [v \in VarsOf(c) |-> Parents(c, v)]
(* The value in the column of the variable itself plays no part. *)
Cond(c, st, v, row, k) ==
  IF Complete(c, v, row) THEN Fitted(st.fit, st.data, st.states, Parents(c, v), v, k, Here(c, v, row))
  ELSE LET L == Denoms(c, st)
           W(j) == PosteriorW(st.fit, st.data, st.states, Pas(c), L, c.n, [row EXCEPT ![v] = 0], v, j)
       IN  << W(k), FoldSet(LAMBDA j, acc : acc + W(j), 0, st.states[v]) >>

(* C30.  Every row and every state of v is one instance, positive if the row *)
(* has that state; its score is the probability that the network predicts.   *)
Instances(st, e) == (1..Len(e.rows)) \X st.states[e.v]
Positive(e, x) == e.rows[x[1]][e.v] = x[2]
Scores(c, st, e) == TLCEval([x \in Instances(st, e) |-> Cond(c, st, e.v, e.rows[x[1]], x[2])])
Higher(a, b) == a[1] * b[2] > b[1] * a[2]
Tied(a, b) == a[1] * b[2] = b[1] * a[2]
(* Equal scores are equal floating point numbers if they are quotients of    *)
(* counts; otherwise rounding may decide between them.                       *)
Sharp(c, st, e) == st.fit.kind \in {"mle", "k2"} /\ \A r \in 1..Len(e.rows) : Complete(c, e.v, e.rows[r])
RocRight(c, st, e) ==
  LET I == Instances(st, e)
      S == Scores(c, st, e)
      P == { x \in I : Positive(e, x) }
      N == I \ P
      wins == FoldSet(LAMBDA x, acc : acc + 2 * Cardinality({ y \in N : Higher(S[x], S[y]) }), 0, P)
      ties == FoldSet(LAMBDA x, acc : acc + Cardinality({ y \in N : Tied(S[x], S[y]) }), 0, P)
      Upto(t, Q) == Cardinality({ y \in Q : ~Higher(S[t], S[y]) })
      Above(t, Q) == Cardinality({ y \in Q : Higher(S[y], S[t]) })
      n == Len(e.points)
      all == 2 * Cardinality(P) * Cardinality(N)
  IN  /\ IF Sharp(c, st, e) THEN SameRatio(e.auc, << wins + ties, all >>)
         ELSE e.auc[2] > 0 /\ e.auc[1] * all >= wins * e.auc[2] /\ e.auc[1] * all <= (wins + 2 * ties) * e.auc[2]
      /\ n >= 2 /\ e.points[1] = << 0, 0 >> /\ e.points[n] = << Cardinality(N), Cardinality(P) >>
      /\ \A k \in 2..n : \E t \in I :
           IF Sharp(c, st, e) THEN e.points[k] = << Upto(t, N), Upto(t, P) >>
           ELSE e.points[k][1] \in Above(t, N)..Upto(t, N) /\ e.points[k][2] \in Above(t, P)..Upto(t, P)
      /\ \A k \in 1..(n - 1) : e.points[k][1] <= e.points[k + 1][1] /\ e.points[k][2] <= e.points[k + 1][2]
ReportRight(c, st, e) ==
  LET R == 1..Len(e.rows)
      hit(k) == Cardinality({ r \in R : e.res[r] = k /\ e.rows[r][e.v] = k })
      guess(k) == Cardinality({ r \in R : e.res[r] = k })
      have(k) == Cardinality({ r \in R : e.rows[r][e.v] = k })
      part(a, b) == IF b = 0 THEN << 0, 1 >> ELSE << a, b >>
  IN  /\ Len(e.cells) = Cardinality(st.states[e.v]) /\ { e.cells[j].k : j \in 1..Len(e.cells) } = st.states[e.v]
      /\ Len(e.res) = Len(e.rows)
      /\ \A r \in R : e.res[r] \in BestOf(st.states[e.v], LAMBDA k : Cond(c, st, e.v, e.rows[r], k))
      /\ \A j \in 1..Len(e.cells) : LET x == e.cells[j] k == x.k IN
           /\ x.support = have(k)
           /\ SameRatio(x.precision, part(hit(k), guess(k)))
           /\ SameRatio(x.recall, part(hit(k), have(k)))
           /\ SameRatio(x.f1, part(2 * hit(k), guess(k) + have(k)))

TJudge(c, st, e) ==
  IF e.out \notin {"ok", "raise"} THEN "no-outcome"
  ELSE IF ~e.unchanged THEN "argument-changed"
  ELSE CASE e.op = "new" ->
              IF Usable(VarsOf(c), EdgeSet(c.edges)) THEN (IF e.out = "ok" THEN "ok" ELSE "valid-structure-refused")
              ELSE IF e.out = "ok" THEN "invalid-structure-accepted" ELSE IF e.exc = "ValueError" THEN "ok" ELSE "wrong-exception"
         [] e.op = "setstates" ->
              IF GoodStates(c, e) THEN (IF e.out = "ok" THEN (IF e.self THEN "ok" ELSE "wrong-result") ELSE "valid-states-refused")
              ELSE IF e.out = "ok" THEN "invalid-states-accepted"
              ELSE IF \E v \in VarsOf(c) : ~e.have[v] THEN (IF e.exc = "KeyError" \/ (e.null /\ e.exc = "ValueError") THEN "ok" ELSE "wrong-exception")
              ELSE IF e.exc = "ValueError" THEN "ok" ELSE "wrong-exception"
         [] e.op = "fit" ->
              IF ValidFit(e) THEN (IF e.out = "ok" THEN (IF e.self THEN "ok" ELSE "wrong-result") ELSE "valid-fit-refused")
              ELSE IF e.out = "ok" THEN "invalid-fit-accepted" ELSE IF e.exc = "ValueError" THEN "ok" ELSE "wrong-exception"
         [] e.out = "raise" -> "question-refused"
         [] e.op = "edit" -> "ok"
         [] e.op = "structure" -> IF e.same THEN "ok" ELSE "another-structure"
         [] e.op = "nodes" -> IF RangeOf(e.vars) = VarsOf(c) /\ Len(e.vars) = c.n THEN "ok" ELSE "wrong-nodes"
         [] e.op = "edges" -> IF EdgeSet(e.pairs) = EdgeSet(c.edges) /\ Len(e.pairs) = Cardinality(EdgeSet(c.edges)) THEN "ok" ELSE "wrong-edges"
         [] e.op = "states" -> IF (\A v \in VarsOf(c) : e.have[v]) /\ NewStates(c, e) = st.states THEN "ok" ELSE "wrong-states"
         [] e.op = "cpds" -> IF ~st.fitted THEN (IF e.tables = << >> THEN "ok" ELSE "tables-before-fit")
                             ELSE IF ~({ e.tables[k].v : k \in 1..Len(e.tables) } = VarsOf(c) /\ Len(e.tables) = c.n) THEN "wrong-tables"
                             ELSE IF \A k \in 1..Len(e.tables) : Table(c, st, e.tables[k]) THEN "ok" ELSE "wrong-probabilities"
         [] e.op = "predict" ->
              IF ~(e.columns = << "prediction" >> /\ e.sameindex /\ Len(e.res) = Len(e.rows)) THEN "wrong-layout"
              ELSE IF \A r \in 1..Len(e.rows) : e.res[r] \in BestOf(st.states[e.v], LAMBDA k : Cond(c, st, e.v, e.rows[r], k)) THEN "ok" ELSE "wrong-prediction"
         [] e.op = "proba" ->
              IF ~(RangeOf(e.states) = st.states[e.v] /\ Len(e.states) = Cardinality(st.states[e.v]) /\ e.sameindex /\ Len(e.probs) = Len(e.rows)) THEN "wrong-layout"
              ELSE IF \A r \in 1..Len(e.rows) : \A k \in 1..Len(e.states) : SameRatio(e.probs[r][k], Cond(c, st, e.v, e.rows[r], e.states[k])) THEN "ok" ELSE "wrong-probability"
         [] e.op = "roc" -> IF RocRight(c, st, e) THEN "ok" ELSE "wrong-roc"
         [] e.op = "report" -> IF ReportRight(c, st, e) THEN "ok" ELSE "wrong-report"
         [] OTHER -> "unknown-event"

TStNext(c, st, e) ==
  IF e.out # "ok" THEN st
  ELSE CASE e.op = "setstates" -> [st EXCEPT !.states = NewStates(c, e)]
         [] e.op = "fit" -> [st EXCEPT !.fitted = TRUE, !.fit = e.fit, !.data = e.rows]
         [] OTHER -> st
=============================================================================
