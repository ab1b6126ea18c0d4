---------------------------- MODULE TraceEstimator ----------------------------
(***************************************************************************)
(* C34, C35.  Estimators: regressors and classifiers on learned structures.*)
(*                                                                         *)
(* c.cfgs[k]: the settings of estimator k: kind ("reg", "clf"), target     *)
(* type ("" for the default), intercept, std (standardised), ridge (in     *)
(* hundredths), ...  c.data[d]: features X (rows of integers, with types   *)
(* kinds), target y (for classifiers: places among the sorted labels, from *)
(* 0).  The abstract state has for every estimator the data it was fitted  *)
(* to (0: none yet, -1: the latest fit was refused), and all predictions   *)
(* seen so far: [c: settings, d: data, x: row, p: prediction]; settings    *)
(* with the same content share a number.                                   *)
(***************************************************************************)
EXTENDS TraceBase, Links

TSt0(c) == [fit |-> [k \in 1..Len(c.cfgs) |-> 0], seen |-> {}]

Cfg(c, e) == c.cfgs[e.est]
Classes(D) == Cardinality({ D.y[n] : n \in 1..Len(D.y) })
Target(C, D) == IF C.target # "" THEN C.target ELSE IF C.kind = "reg" THEN "cont" ELSE IF Classes(D) > 2 THEN "cat" ELSE "bin"
Width(C, D) == IF Target(C, D) = "cat" THEN Classes(D) ELSE 1
AddUp(f, n) == FoldLeft(LAMBDA s, k : s + f[k], 0, [k \in 1..n |-> k])

(* Columns after expansion, without the target: << column, value >>, where  *)
(* value is only of interest for categorical columns.                       *)
Levels(D, j) == { D.X[n][j] : n \in 1..Len(D.X) }
Parts(D) == UNION { IF D.kinds[j] = "cat" THEN { <<j, v>> : v \in Levels(D, j) } ELSE { <<j, 0>> } : j \in 1..Len(D.kinds) }
At(D, row, x) == CASE D.kinds[x[1]] = "cat" -> (IF row[x[1]] = x[2] THEN 1 ELSE 0)
                   [] D.kinds[x[1]] = "ord" -> Cardinality({ v \in Levels(D, x[1]) : v < row[x[1]] })
                   [] OTHER -> row[x[1]]

(* --------------------- the optimum, on public results ------------------ *)
(* p[n]: the prediction for row n of the data: one number, or the           *)
(* probabilities of the classes.  How much more was predicted than seen,    *)
(* for part q of the target.                                                *)
Below(p, k) == AddUp(p, k)
Over(C, D, p, n, q) ==
  CASE Target(C, D) \in {"cont", "poiss"} -> p[n][1] - One * D.y[n]
    [] Target(C, D) = "bin" -> p[n][2] - One * D.y[n]
    [] Target(C, D) = "cat" -> p[n][q] - (IF D.y[n] = q - 1 THEN One ELSE 0)
    [] OTHER -> One - Below(p[n], D.y[n] + 1) - Below(p[n], D.y[n])

Tenth(x) == IF x < 0 THEN -((5 - x) \div 10) ELSE (x + 5) \div 10
OptimumClause(c, C, D, e, p) ==
  LET n == Len(D.X)
      d == Cardinality(Parts(D)) + Width(C, D)
      over == TLCEval([q \in 1..Width(C, D) |-> TLCEval([k \in 1..n |-> Tenth(Over(C, D, p, k, q))])])
      Col(x) == TLCEval([k \in 1..n |-> At(D, D.X[k], x)])
      \* standardised continuous columns enter the model as distances from their mean
      Centred(x) == LET s == AddUp(Col(x), n) IN TLCEval([k \in 1..n |-> n * Col(x)[k] - s])
      Times1(f, g) == AddUp([k \in 1..n |-> f[k] * g[k]], n)
      Size(g) == AddUp([k \in 1..n |-> Absolute(g[k])], n)
      Coef(q, x) == IF C.ridge = 0 THEN 0 ELSE e.coef[q][x[1]]
      Plain(q, x) == Absolute(Times1(over[q], Col(x)) + Tenth((n * C.ridge * Coef(q, x)) \div (100 * d))) > Size(Col(x)) + n + 20
      AroundMean(q, x) == Absolute(Times1(over[q], Centred(x))) > Size(Centred(x)) + (2 * n * n) + 20
      ScaledDown(x) == C.std /\ D.kinds[x[1]] = "cont"
      Off(q, x) == IF ScaledDown(x) THEN AroundMean(q, x) ELSE Plain(q, x)
  IN  IF C.intercept /\ \E q \in 1..Width(C, D) : Absolute(AddUp(over[q], n)) > 2 * n + 10 THEN "intercept-not-optimal"
      ELSE IF \E q \in 1..Width(C, D), x \in Parts(D) : Off(q, x) THEN "coefficient-not-optimal"
      ELSE "ok"

(* --------------------- predictions from coefficients ------------------- *)
Score(e, q, row, D) == FoldLeft(LAMBDA s, j : s + e.coef[q][j] * At(D, row, <<j, 0>>), e.icpt[q], [j \in 1..Len(row) |-> j])
ByCoef(C, D, e, row) ==
  LET t == Target(C, D)
      counts == [k \in 1..Classes(D) |-> Cardinality({ n \in 1..Len(D.y) : D.y[n] = k - 1 })]
  IN  CASE t = "cont" -> << Score(e, 1, row, D) >>
        [] t = "poiss" -> << Exponential(Score(e, 1, row, D)) >>
        [] t = "bin" -> << One - Sigmoid(Score(e, 1, row, D)), Sigmoid(Score(e, 1, row, D)) >>
        [] t = "cat" -> Softmax([q \in 1..Classes(D) |-> Score(e, q, row, D)])
        [] OTHER -> Ordered(counts, Score(e, 1, row, D))
Linked(C, D, e) == ~C.std /\ C.threshold = 0 /\ ~C.dag /\ ~C.hidden /\ e.coef # << >>
  \* without a penalty, classes that can be told apart have no finite optimum
  /\ \A q \in 1..Len(e.coef) : Absolute(e.icpt[q]) < 200000 /\ \A j \in 1..Len(e.coef[q]) : Absolute(e.coef[q][j]) < 200000
Tame(C, D, e, row) == Target(C, D) # "poiss" \/ Score(e, 1, row, D) <= 40000
AsCoef(C, D, e, r) ==
  LET w == TLCEval(ByCoef(C, D, e, e.rows[r]))
  IN  /\ Len(e.vals[r]) = Len(w)
      /\ \A k \in 1..Len(w) : Absolute(w[k] - e.vals[r][k]) <= 12 + (Absolute(w[k]) \div 300)

(* For a continuous target predictions are affine in continuous features:   *)
(* e.affine lists rows <<i, j, k, l>> with x_l = x_i + x_j - x_k.           *)
AffineOk(e) == \A a \in 1..Len(e.affine) :
  LET q == e.affine[a] IN Absolute(e.vals[q[1]][1] + e.vals[q[2]][1] - e.vals[q[3]][1] - e.vals[q[4]][1]) <= 8

(* ---------------------------- presentation ----------------------------- *)
Same(p, q, C) == Len(p) = Len(q) /\ \A k \in 1..Len(p) : Absolute(p[k] - q[k]) <= C.near + (Absolute(p[k]) \div 500)
Key(c, e) == Cfg(c, e).same
Settled(p) == Len(p) = 1 \/ \A k \in 1..Len(p) : p[k] >= 30
Contradicts(c, st, e, r) ==
  \E s \in st.seen : /\ s.c = Key(c, e) /\ s.d = st.fit[e.est] /\ s.x = e.rows[r]
                     /\ (~Cfg(c, e).hidden /\ Cfg(c, e).alpha = 0) \/ s.f = e.nfit
                     /\ ~Same(s.p, e.vals[r], Cfg(c, e))
Probabilities(p) == /\ \A k \in 1..Len(p) : p[k] >= -1
                    /\ Absolute(AddUp(p, Len(p)) - One) <= Len(p) + 1
Winner(p, k) == k \in 1..Len(p) /\ \A j \in 1..Len(p) : p[k] >= p[j] - 2
ShapeOk(C, D, e) ==
  LET d == Len(D.kinds)
      rows == IF Target(C, D) = "cat" /\ Classes(D) > 2 THEN Classes(D) ELSE 1
  IN  IF C.kind = "reg" THEN e.shapes = << << d >>, << >>, << d >> >>
      ELSE e.shapes = << << rows, d >>, << rows >>, << rows, d >> >>
ImportanceOk(C, D, e) == \A q \in 1..Len(e.coef), j \in 1..Len(D.kinds) :
  IF C.hidden THEN e.imp[q][j] >= Absolute(e.coef[q][j]) - 1 ELSE e.imp[q][j] = Absolute(e.coef[q][j])
InterceptOk(C, e) == C.intercept \/ \A q \in 1..Len(e.icpt) : e.icpt[q] = 0
(* A feature without an edge to the target in graph_ has coefficient 0.     *)
LinksOk(D, e) == \A q \in 1..Len(e.coef), j \in 1..Len(D.kinds) : (\E l \in 1..Len(e.links) : e.links[l] = j) \/ (e.imp[q][j] = 0 /\ e.coef[q][j] = 0)
ThresholdOk(C, D, e) == \A q \in 1..Len(e.coef), j \in 1..Len(D.kinds) : e.imp[q][j] = 0 \/ e.imp[q][j] >= C.threshold - 1

JudgeAsk(c, st, e) ==
  LET C == Cfg(c, e) IN
  IF st.fit[e.est] = -1 THEN "ok"
  ELSE IF st.fit[e.est] = 0 THEN (IF e.out = "raise" /\ e.exc = "NotFittedError" THEN "ok" ELSE "answered-before-fit")
  ELSE IF e.out # "ok" THEN "prediction-failed"
  ELSE IF ~e.unchanged THEN "arguments-changed"
  ELSE
  LET D == c.data[st.fit[e.est]]
      n == Len(e.rows)
      calm == Target(C, D) \in {"cont"} \/ C.hidden \/ (Target(C, D) = "poiss") \/ \A r \in 1..n : Settled(e.vals[r])
  IN  IF Len(e.vals) # n \/ \E r \in 1..n : Len(e.vals[r]) # (IF C.kind = "reg" THEN 1 ELSE Classes(D)) THEN "wrong-shape-of-predictions"
      ELSE IF C.kind = "clf" /\ \E r \in 1..n : ~Probabilities(e.vals[r]) THEN "not-probabilities"
      ELSE IF C.kind = "clf" /\ ~(Len(e.cls) = n /\ \A r \in 1..n : Winner(e.vals[r], e.cls[r])) THEN "class-is-not-the-most-probable"
      ELSE IF ~ShapeOk(C, D, e) /\ e.coef # << >> THEN "wrong-shape-of-coefficients"
      ELSE IF ~ImportanceOk(C, D, e) THEN "importance-is-not-the-size-of-the-coefficient"
      ELSE IF ~LinksOk(D, e) THEN "coefficient-without-edge"
      ELSE IF ~InterceptOk(C, e) THEN "intercept-not-asked-for"
      ELSE IF ~C.hidden /\ ~ThresholdOk(C, D, e) THEN "coefficient-below-threshold"
      ELSE IF Linked(C, D, e) /\ \E r \in 1..n : Tame(C, D, e, e.rows[r]) /\ ~AsCoef(C, D, e, r) THEN "prediction-is-not-that-of-the-coefficients"
      ELSE IF ~C.hidden /\ ~AffineOk(e) THEN "prediction-not-affine"
      ELSE IF calm /\ \E r \in 1..n : Contradicts(c, st, e, r) THEN "prediction-depends-on-presentation"
      ELSE IF e.train /\ ~C.hidden /\ C.alpha = 0 /\ (C.ridge = 0 \/ Linked(C, D, e)) THEN OptimumClause(c, C, D, e, e.vals)
      ELSE "ok"

JudgeFit(c, st, e) ==
  LET C == Cfg(c, e) IN
  IF ~e.valid THEN (IF e.out = "raise" /\ e.exc = e.want THEN "ok" ELSE "bad-fit-accepted")
  ELSE IF e.out # "ok" THEN "fit-failed"
  ELSE IF ~e.unchanged THEN "arguments-changed"
  ELSE IF ~e.itself THEN "fit-returns-something-else"
  ELSE IF C.kind = "clf" /\ e.classes # [k \in 1..Classes(c.data[e.data]) |-> k] THEN "classes-are-not-the-sorted-labels"
  ELSE IF C.dependent /\ \E k \in 1..Len(e.parents) : e.parents[k] = Len(c.data[e.data].kinds) + 1 THEN "target-has-children"
  ELSE IF C.dag /\ ~e.acyclic THEN "not-a-dag"
  ELSE "ok"

(* ------------------- questions about the fitted graph ------------------ *)
(* e.edges: << from, to, weight, mean effect >> by number of node.          *)
EdgesClause(e) ==
  LET Of(i) == { x \in Range(e.edges) : x[1] = e.order[i] /\ x[2] = e.node }
      Want(i) == IF Of(i) = {} THEN 0 ELSE LET x == CHOOSE x \in Of(i) : TRUE IN IF e.what = "weight" THEN x[3] ELSE x[4]
  IN  IF e.out # "ok" THEN "edges-to-node-failed"
      ELSE IF ~e.unchanged THEN "graph-changed"
      ELSE IF e.index # e.order \/ Len(e.vals) # Len(e.order) THEN "edges-of-other-features"
      ELSE IF \E i \in 1..Len(e.order) : e.vals[i] # Want(i) THEN "wrong-edges-to-node"
      ELSE "ok"
(* Edges are taken away from the lightest on, until no cycle is left.       *)
RECURSIVE Later(_, _)
Later(E, S) == LET T == S \cup { x[2] : x \in { y \in E : y[1] \in S } } IN IF T = S THEN S ELSE Later(E, T)
NoCycle(E) == \A x \in E : x[1] \notin Later(E, {x[2]})
PlotClause(e) ==
  LET All == Range(e.edges)
      Drawn == { x \in All : << x[1], x[2] >> \in Range(e.drawn) }
      Gone == All \ Drawn
      top == Max({ x[3] : x \in Gone })
  IN  IF e.out # "ok" THEN "plot-failed"
      ELSE IF ~e.unchanged THEN "graph-changed"
      ELSE IF ~e.right THEN "not-shown-as-asked"
      ELSE IF e.nodes # [k \in 1..e.n |-> k] THEN "other-nodes-drawn"
      ELSE IF Len(e.drawn) # Cardinality(Drawn) THEN "other-edges-drawn"
      ELSE IF Gone = {} THEN (IF e.dag /\ ~NoCycle(All) THEN "cycle-drawn" ELSE "ok")
      ELSE IF ~e.dag THEN "edges-not-drawn"
      ELSE IF ~NoCycle(Drawn) THEN "cycle-drawn"
      ELSE IF \E x \in Drawn : x[3] < top - 1 THEN "heavier-edge-not-drawn"
      ELSE IF NoCycle(Drawn \cup { x \in Gone : x[3] >= top - 1 }) THEN "edges-not-drawn"
      ELSE "ok"

TJudge(c, st, e) ==
  CASE e.op = "new" -> IF e.out = "raise" THEN (IF e.exc = e.want THEN "ok" ELSE "wrong-error") ELSE IF e.out = "ok" /\ e.want = "" THEN "ok" ELSE "bad-settings-accepted"
    [] e.op = "fit" -> JudgeFit(c, st, e)
    [] e.op = "ask" -> JudgeAsk(c, st, e)
    [] e.op = "edges" -> EdgesClause(e)
    [] e.op = "plot" -> PlotClause(e)
    [] OTHER -> "unknown-event"

TStNext(c, st, e) ==
  CASE e.op = "fit" -> [st EXCEPT !.fit[e.est] = IF e.valid THEN e.data ELSE -1]
    [] e.op = "ask" /\ st.fit[e.est] > 0 ->
         [st EXCEPT !.seen = TLCEval(@ \cup { [c |-> Key(c, e), d |-> st.fit[e.est], f |-> e.nfit, x |-> e.rows[r], p |-> e.vals[r]] : r \in 1..Len(e.rows) })]
    [] OTHER -> st
=============================================================================
