----------------------------- MODULE TraceTabular -----------------------------
(***************************************************************************)
(* C28.  Data generated from a structure.  c.schema: [v, type, card] in    *)
(* the order of the nodes; c.edges: <<u, v, 2 * weight>> (99: no weight).  *)
(* Rows hold continuous values in thousandths and other values as they     *)
(* are; rows[r][k] belongs to column e.cols[k].                            *)
(***************************************************************************)
EXTENDS TraceBase, Features, Generators

TSt0(c) == 0
AsSet(s) == { s[k] : k \in 1..Len(s) }
EdgesOf(c) == AsSet(c.edges)
VarSet(c) == { c.schema[k].v : k \in 1..Len(c.schema) }
Into(c, v) == { x \in EdgesOf(c) : x[2] = v }
ColOf(e, f) == CHOOSE k \in 1..Len(e.cols) : e.cols[k] = f
Unit(c, v) == IF TypeOf(c.schema, v) = "continuous" THEN 1 ELSE 1000   \* to thousandths

ValidRequest(c, e) ==
  /\ AcyclicPairs(Pairs(EdgesOf(c)))
  /\ ~e.badtype
  /\ \A t \in AsSet(e.baddists) :
       CASE t = "weight" -> ~(\E x \in EdgesOf(c) : x[3] = 99)
         [] t = "intercept" -> ~e.intercept
         [] OTHER -> ~(\E k \in 1..Len(c.schema) : c.schema[k].type = t)

Columns(c, e) == IF e.form = "nodes" THEN e.cols = [k \in 1..Len(c.schema) |-> << c.schema[k].v, -1 >>]
                 ELSE e.cols = FeatureList(c.schema)

Domain(c, e) ==
  \A r \in 1..Len(e.rows) : \A k \in 1..Len(c.schema) :
    LET x == c.schema[k] row == e.rows[r] IN
    CASE x.type = "binary" -> row[ColOf(e, << x.v, -1 >>)] \in {0, 1}
      [] x.type = "count" -> row[ColOf(e, << x.v, -1 >>)] \in 0..5000
      [] x.type = "categorical" -> \E j \in 0..(x.card - 1) : \A i \in 0..(x.card - 1) : row[ColOf(e, << x.v, i >>)] = (IF i = j THEN 1 ELSE 0)
      [] OTHER -> row[ColOf(e, << x.v, -1 >>)] # -2000000000

(* Twice the linear score of v in a row, in thousandths, given for every      *)
(* categorical parent the category that carries the weight.                  *)
Score(c, e, v, pick, r) ==
  FoldSet(LAMBDA x, acc : acc + x[3] * Unit(c, x[1]) * e.rows[r][ColOf(e, IF x[1] \in DOMAIN pick THEN << x[1], pick[x[1]] >> ELSE << x[1], -1 >>)], 0, Into(c, v))
CatParents(c, v) == { x[1] : x \in { y \in Into(c, v) : TypeOf(c.schema, y[1]) = "categorical" } }
CardOf(c, v) == (CHOOSE x \in AsSet(c.schema) : x.v = v).card
Picks(c, v) == { f \in [CatParents(c, v) -> 0..3] : \A u \in CatParents(c, v) : f[u] < CardOf(c, u) }
Slack == 20
Exact(c, e, v) ==     \* v is continuous: v = score + constant
  \E pick \in Picks(c, v) :
    LET D(r) == 2 * e.rows[r][ColOf(e, << v, -1 >>)] - Score(c, e, v, pick, r)
    IN  IF e.intercept THEN \A r \in 1..Len(e.rows) : AbsOf(D(r) - D(1)) <= Slack ELSE \A r \in 1..Len(e.rows) : AbsOf(D(r)) <= Slack
Threshold(c, e, v) == \* v is binary: 1 above some score and 0 below
  \E pick \in Picks(c, v) :
    LET S == TLCEval([r \in 1..Len(e.rows) |-> Score(c, e, v, pick, r)])
        one(r) == e.rows[r][ColOf(e, << v, -1 >>)] = 1
        ones == { S[r] : r \in { q \in 1..Len(e.rows) : one(q) } }
        zeros == { S[r] : r \in { q \in 1..Len(e.rows) : ~one(q) } }
    IN  ones = {} \/ zeros = {} \/ Min(ones) >= Max(zeros) - Slack
Category(c, e, v, r) == CHOOSE j \in 0..(CardOf(c, v) - 1) : e.rows[r][ColOf(e, << v, j >>)] = 1
Chosen(c, e, v) ==    \* v is categorical: the category of the largest score, every weight given to one category
  \E pick \in Picks(c, v) : \E to \in [{ x[1] : x \in Into(c, v) } -> 0..(CardOf(c, v) - 1)] :
    \A r \in 1..Len(e.rows) :
      LET part(x) == x[3] * Unit(c, x[1]) * e.rows[r][ColOf(e, IF x[1] \in DOMAIN pick THEN << x[1], pick[x[1]] >> ELSE << x[1], -1 >>)]
          score(j) == FoldSet(LAMBDA x, acc : acc + (IF to[x[1]] = j THEN part(x) ELSE 0), 0, Into(c, v))
          got == score(Category(c, e, v, r))
      IN  \A j \in 0..(CardOf(c, v) - 1) : got >= score(j) - Slack
(* Without noise, rows that agree in the parents agree in the child, whatever *)
(* the function that joins them (a binary child can be split at a quantile of  *)
(* values that are all but equal, and batches of a nonlinear function are     *)
(* joined with a little jitter).                                             *)
Determined(c, e) ==
  e.determined => \A v \in VarSet(c) :
    LET P == { x[1] : x \in Into(c, v) }
        colsOf(U) == { k \in 1..Len(e.cols) : e.cols[k][1] \in U }
        pc == colsOf(P)
        vc == colsOf({v})
        key(r) == [k \in pc |-> e.rows[r][k]]
        keys == { key(r) : r \in 1..Len(e.rows) }
        first == [x \in keys |-> CHOOSE r \in 1..Len(e.rows) : key(r) = x]
    IN  (P # {} /\ (e.batched => Cardinality(keys) = 1) /\ TypeOf(c.schema, v) \in {"continuous", "categorical"} /\ \A u \in P : TypeOf(c.schema, u) # "continuous") =>
          \A r \in 1..Len(e.rows) : \A k \in vc :
            AbsOf(e.rows[r][k] - e.rows[first[key(r)]][k]) <= (IF TypeOf(c.schema, v) = "continuous" THEN Slack ELSE 0)
Noiseless(c, e) ==
  e.noiseless => \A v \in VarSet(c) :
    (Into(c, v) # {} /\ \A x \in Into(c, v) : x[3] # 99) =>
       CASE TypeOf(c.schema, v) = "continuous" -> Exact(c, e, v)
         [] TypeOf(c.schema, v) = "binary" -> Threshold(c, e, v)
         [] TypeOf(c.schema, v) = "categorical" -> e.intercept \/ Cardinality(Into(c, v)) > 2 \/ Chosen(c, e, v)
         [] OTHER -> TRUE
Balanced(c, e) ==
  (e.balance /\ Len(e.rows) >= 60) => \A v \in VarSet(c) : TypeOf(c.schema, v) = "binary" =>
     LET k == Cardinality({ r \in 1..Len(e.rows) : e.rows[r][ColOf(e, << v, -1 >>)] = 1 })
     IN  k * 100 >= 3 * Len(e.rows) /\ k * 100 <= 97 * Len(e.rows)
AllZero(c, e) == e.zeros => \A r \in 1..Len(e.rows) : \A k \in 1..Len(c.schema) : c.schema[k].type = "count" => e.rows[r][ColOf(e, << c.schema[k].v, -1 >>)] = 0

(* ------------------------- moments of long samples ---------------------- *)
(* Mean and variance of the noise of scale 1, in thousandths. *)
NoiseMean(d) == CASE d = "exponential" -> 1000 [] d = "gumbel" -> 577 [] OTHER -> 0
NoiseVar(d) == CASE d = "student-t" -> 1667 [] d = "gumbel" -> 1645 [] OTHER -> 1000
Near(x, y, tol) == AbsOf(x - y) <= tol
(* e.sd: scale in tenths; e.mean, e.var in thousandths. *)
MomentsRight(e) ==
  /\ e.shifted \/ Near(e.mean, (NoiseMean(e.dist) * e.sd) \div 10, 6 * e.sd + 2)
  /\ Near(e.var, (((NoiseVar(e.dist) * e.sd) \div 10) * e.sd) \div 10, ((NoiseVar(e.dist) * e.sd * e.sd) \div 100) \div 6 + 2)
  /\ AbsOf(e.corr) <= 60
(* Rates of counts: of a root (1/2 on average), or with score s/2. *)
Rate(s) == CASE s = 98 -> 500 [] s = -4 -> 135 [] s = -2 -> 368 [] s = -1 -> 607 [] OTHER -> 500 * s
RateRight(e) == LET want == (Rate(e.score) * (1000 - e.inflation)) \div 1000 IN Near(e.mean, want, 40 + want \div 12)

(* A weight of one standard deviation for one of K categories: how likely it  *)
(* is then, in ten-thousandths. e.groups: counts of the categories where the *)
(* parent is 0 and where it is 1.                                            *)
Gumbels(d) == d \in {"logit", "gumbel"}
Favoured(d, s, K) ==
  IF Gumbels(d) THEN (IF s > 0 THEN << 7311, 5761, 4754 >> ELSE << 2689, 1554, 1092 >>)[K - 1]
  ELSE (IF s > 0 THEN << 7602, 6337, 5520 >> ELSE << 2398, 1132, 683 >>)[K - 1]
Total(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
CategoriesRight(e) ==
  LET K == Len(e.groups[1]) zero == e.groups[1] one == e.groups[2] f == Favoured(e.dist, e.score, K)
  IN  /\ \A j \in 1..K : LikelyCount(zero[j], Total(zero), 1, K)
      /\ \E k \in 1..K : \A j \in 1..K : LikelyCount(one[j], Total(one), IF j = k THEN f ELSE (10000 - f) \div (K - 1), 10000)
(* e.groups: medians of the steps between neighbours and of the distance from  *)
(* the median: about 7/5 to one if rows were mixed up, a few hundredths if not. *)
Smooth(e) == \A k \in 1..Len(e.groups) : 2 * e.groups[k][1] <= e.groups[k][2] + 10

TJudge(c, st, e) ==
  IF e.out \notin {"ok", "raise"} THEN "no-outcome"
  ELSE IF e.op = "moments" THEN (IF e.out = "ok" /\ MomentsRight(e) THEN "ok" ELSE "wrong-distribution")
  ELSE IF e.op = "rate" THEN (IF e.out = "ok" /\ RateRight(e) THEN "ok" ELSE "wrong-distribution")
  ELSE IF e.op = "share" THEN (IF e.out = "ok" /\ LikelyCount(e.count[1], e.count[2], e.count[3], e.count[4]) THEN "ok" ELSE "wrong-distribution")
  ELSE IF e.op = "categories" THEN (IF e.out = "ok" /\ CategoriesRight(e) THEN "ok" ELSE "wrong-distribution")
  ELSE IF e.op = "smooth" THEN (IF e.out = "ok" /\ Smooth(e) THEN "ok" ELSE "rows-mixed-up")
  ELSE IF ~e.unchanged THEN "argument-changed"
  ELSE IF ~ValidRequest(c, e) THEN (IF e.out = "ok" THEN "invalid-request-accepted" ELSE IF e.exc = "ValueError" THEN "ok" ELSE "wrong-exception")
  ELSE IF e.out = "raise" THEN "valid-request-refused"
  ELSE IF ~(Columns(c, e) /\ Len(e.rows) = e.n) THEN "wrong-layout"
  ELSE IF ~e.reproduced THEN "seed-does-not-determine-the-data"
  ELSE IF ~Domain(c, e) THEN "impossible-value"
  ELSE IF ~AllZero(c, e) THEN "not-inflated"
  ELSE IF ~Noiseless(c, e) THEN "not-the-structural-equations"
  ELSE IF ~Determined(c, e) THEN "not-determined-by-the-parents"
  ELSE IF ~Balanced(c, e) THEN "unbalanced"
  ELSE "ok"
TStNext(c, st, e) == st
=============================================================================
