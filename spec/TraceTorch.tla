------------------------------ MODULE TraceTorch ------------------------------
(***************************************************************************)
(* C32, C33.  Learning a structure over mixed distribution types, and the  *)
(* data that the learned model reconstructs.  The abstract state holds the *)
(* latest result without a threshold: its weights W[x][y] and biases B[x]. *)
(***************************************************************************)
EXTENDS TraceBase, Expansion, Links

TSt0(c) == [known |-> FALSE, req |-> << >>, W |-> << >>, B |-> << >>]

Edges(e) == { e.edges[k] : k \in 1..Len(e.edges) }    \* <<i, ki, j, kj, weight, effect, origin>>
Ends(x) == << <<x[1], x[2]>>, <<x[3], x[4]>> >>
NodesOf(e) == { <<e.nodes[k][1], e.nodes[k][2]>> : k \in 1..Len(e.nodes) }
Req(e) == << e.ridge, e.lasso, e.bias, e.tE, e.tP, e.tC, e.hidden >>

(* Sum of the weights between the nodes of two columns. *)
Between(E, i, j) == FoldLeft(LAMBDA s, x : s + x[5], 0, SetToSeq({ x \in E : x[1] = i /\ x[3] = j }))
Collapsed(e, i, j) == LET s == { k \in 1..Len(e.flat) : e.flat[k][1] = i /\ e.flat[k][2] = j } IN IF s = {} THEN 0 ELSE e.flat[CHOOSE k \in s : TRUE][3]
FlatOk(c, e, E) ==
  /\ Len(e.flatnodes) = Len(c.kinds) /\ { e.flatnodes[k] : k \in 1..Len(e.flatnodes) } = Columns(c)
  /\ \A k \in 1..Len(e.flat) : AllowedColumns(e, e.flat[k][1], e.flat[k][2])
  /\ \A i \in Columns(c), j \in Columns(c) :
       LET p == Wide(c, i) * Wide(c, j)
           s == Between(E, i, j)
       IN  Collapsed(e, i, j) \in (s - p - 1)..(s + p + 1 + (IF e.t = 0 THEN 0 ELSE p * e.t))

(* ------------------------------ the optimum ---------------------------- *)
Matrix(c, E) ==
  LET N == Nodes(c)
  IN  TLCEval([x \in N |-> TLCEval([y \in N |->
        LET s == { e \in E : e[1] = x[1] /\ e[2] = x[2] /\ e[3] = y[1] /\ e[4] = y[2] }
        IN  IF s = {} THEN 0 ELSE (CHOOSE e \in s : TRUE)[6]])])
Biases(e) == [x \in NodesOf(e) |-> LET k == CHOOSE k \in 1..Len(e.nodes) : e.nodes[k][1] = x[1] /\ e.nodes[k][2] = x[2] IN e.nodes[k][3]]
Latent(c, W, B, read, y) == FoldLeft(LAMBDA s, x : s + W[x][y] * read[x], B[y], SetToSeq(DOMAIN read))
Readings(c, row) == [x \in Nodes(c) |-> Reading(c, row, x)]
Counts(c, j) == LET vs == Values(c, j) IN [k \in 1..Len(vs) |-> Cardinality({ n \in 1..Len(c.X) : c.X[n][j] = vs[k] })]
Moderate(l, kind) == kind # "poiss" \/ l <= 70000

(* What the model expects at node y, given the latent values of the column. *)
Expected(c, lat, y) ==
  CASE c.kinds[y[1]] = "cont" -> lat[y]
    [] c.kinds[y[1]] = "bin" -> Sigmoid(lat[y])
    [] c.kinds[y[1]] = "poiss" -> Exponential(lat[y])
    [] c.kinds[y[1]] = "cat" -> Softmax([k \in 1..Wide(c, y[1]) |-> lat[<<y[1], k - 1>>]])[y[2] + 1]
    [] OTHER -> 0
(* How much more is expected than was seen: the slope of the loss. *)
Excess(c, lat, read, y) ==
  IF c.kinds[y[1]] = "ord"
  THEN LET n == Counts(c, y[1]) IN One - AtMost(n, lat[y], read[y] + 1) - AtMost(n, lat[y], read[y])
  ELSE Expected(c, lat, y) - One * read[y]
Curve(c, lat, y) == CASE c.kinds[y[1]] = "cont" -> 1 [] c.kinds[y[1]] = "poiss" -> 1 + (Expected(c, lat, y) \div One) [] OTHER -> 1
LinkError(kind) == IF kind = "cont" THEN 0 ELSE 4

Sum(f, n) == FoldLeft(LAMBDA s, k : s + f[k], 0, [k \in 1..n |-> k])
NotOptimal(c, e, W, B) ==
  LET N == Nodes(c)
      n == Len(c.X)
      d == Cardinality(N)
      reads == TLCEval([k \in 1..n |-> TLCEval(Readings(c, c.X[k]))])
      lats == TLCEval([k \in 1..n |-> TLCEval([y \in N |-> Latent(c, W, B, reads[k], y)])])
      over == TLCEval([y \in N |-> TLCEval([k \in 1..n |-> Excess(c, lats[k], reads[k], y)])])
      \* rounding of weights and biases moves a latent value by at most this, and the link functions are approximate
      blur == TLCEval([y \in N |-> TLCEval([k \in 1..n |->
                 LinkError(c.kinds[y[1]]) + Curve(c, lats[k], y) * (2 + FoldLeft(LAMBDA s, x : s + Absolute(reads[k][x]), 0, SetToSeq({ x \in N : W[x][y] # 0 })) \div 2)])])
      Calm(y) == \A k \in 1..n : Moderate(lats[k][y], c.kinds[y[1]])
      EdgeOff(x, y) ==
        LET s == Sum([k \in 1..n |-> over[y][k] * reads[k][x]], n)
            slack == Sum([k \in 1..n |-> blur[y][k] * Absolute(reads[k][x])], n) + 20 + ((n * One) \div e.exact)
            w == W[x][y]
            ridge == (n * e.ridge * w) \div (100 * d)
        IN  Absolute(s + ridge) > slack
      BiasOff(y) == Absolute(Sum(over[y], n)) > Sum(blur[y], n) + 20 + ((n * One) \div e.exact)
  IN  IF \E y \in N : e.bias /\ Calm(y) /\ BiasOff(y) THEN "bias-not-optimal"
      ELSE IF \E x \in N, y \in N : AllowedNodes(e, x, y) /\ Calm(y) /\ EdgeOff(x, y) THEN "weight-not-optimal"
      ELSE "ok"

(* With an l1 term the loss has kinks, where the optimiser may stop early;  *)
(* but it never ends above the empty structure, where it starts.  For       *)
(* continuous columns: twice the number of rows times the penalised loss,   *)
(* in units of 1/10000.                                                    *)
Squares(f, n) == FoldLeft(LAMBDA s, k : s + (f[k] \div 100) * (f[k] \div 100), 0, [k \in 1..n |-> k])
AboveTheEmptyStructure(c, e, W, B) ==
  LET N == Nodes(c)
      S == SetToSeq(N)
      n == Len(c.X)
      reads == TLCEval([k \in 1..n |-> TLCEval(Readings(c, c.X[k]))])
      Rest(y) == TLCEval([k \in 1..n |-> Latent(c, W, B, reads[k], y) - One * reads[k][y]])
      Seen(y) == [k \in 1..n |-> One * reads[k][y]]
      Total(F(_)) == FoldLeft(LAMBDA s, y : s + Squares(F(y), n), 0, S)
      l1 == FoldLeft(LAMBDA s, x : s + FoldLeft(LAMBDA t, y : t + Absolute(W[x][y]), 0, S), 0, S)
      price == 2 * n * ((e.lasso * l1) \div (100 * Cardinality(N)))
      start == Total(Seen)
  IN  Total(Rest) + price > start + (start \div 50) + 100

(* ------------------------------ reconstruction ------------------------- *)
Near(a, b) == Absolute(a - b) <= 12 + (Absolute(b) \div 400)
RebuildOk(c, st, e) ==
  \A r \in 1..Len(e.rows) :
    LET read == TLCEval(Readings(c, e.rows[r]))
        lat == TLCEval([y \in Nodes(c) |-> Latent(c, st.W, st.B, read, y)])
    IN  IF e.of # 0
        THEN LET want == Ordered(Counts(c, e.of), lat[<<e.of, 0>>])
             IN  Len(e.res[r]) = Len(want) /\ \A k \in 1..Len(want) : Near(e.res[r][k], want[k])
        ELSE /\ Len(e.res[r]) = Cardinality(Nodes(c))
             /\ \A y \in Nodes(c) : Moderate(lat[y], c.kinds[y[1]]) =>
                  Near(e.res[r][CHOOSE k \in 1..Len(e.places) : e.places[k] = y], Expected(c, lat, y))

JudgeLearn(c, st, e) ==
  LET E == TLCEval(Edges(e)) IN
  IF ~e.valid THEN (IF e.out = "raise" /\ e.exc = "ValueError" THEN "ok" ELSE "bad-request-accepted")
  ELSE IF e.out # "ok" THEN "request-failed"
  ELSE IF ~e.unchanged THEN "arguments-changed"
  ELSE IF e.strange # "" THEN e.strange
  ELSE IF Len(e.nodes) # Cardinality(Nodes(c)) \/ NodesOf(e) # Nodes(c) THEN "wrong-nodes"
  ELSE IF \E k \in 1..Len(e.nodes) : e.nodes[k][4] # c.kinds[e.nodes[k][1]] \/ e.nodes[k][5] # e.nodes[k][1] THEN "wrong-type-of-node"
  ELSE IF \E k \in 1..Len(e.nodes) : e.nodes[k][6] # e.bias THEN "bias-where-none-was-asked-for-or-the-reverse"
  ELSE IF Cardinality({ Ends(x) : x \in E }) # Len(e.edges) THEN "edge-listed-twice"
  ELSE IF \E x \in E : ~AllowedNodes(e, Ends(x)[1], Ends(x)[2]) THEN "forbidden-edge"
  ELSE IF \E x \in E : x[7] # "learned" THEN "origin-not-learned"
  ELSE IF \E x \in E : x[5] < 0 \/ x[5] < e.t - 1 THEN "edge-below-threshold"
  ELSE IF \E x \in E : IF e.hidden THEN Absolute(x[6]) > x[5] + 1 ELSE Absolute(x[6]) # x[5] THEN "weight-is-not-the-size-of-the-effect"
  ELSE IF ~FlatOk(c, e, E) THEN "wrong-collapsed-graph"
  ELSE IF e.converged /\ e.heavy /\ ~NoCycle({ <<x[1], x[3]>> : x \in { y \in E : y[5] >= 3000 } }) THEN "heavy-cycle"
  ELSE IF c.optimum /\ OneOrder(c, e) /\ e.t = 0 /\ ~e.hidden
       THEN LET W == Matrix(c, E)
                B == TLCEval(Biases(e))
                v == IF e.lasso = 0 THEN NotOptimal(c, e, W, B)
                     ELSE IF (\A j \in Columns(c) : c.kinds[j] = "cont") /\ AboveTheEmptyStructure(c, e, W, B) THEN "worse-than-the-empty-structure" ELSE "ok"
            IN  IF v # "ok" THEN v
                ELSE IF st.known /\ e.lasso = 0 /\ st.req = Req(e) /\ \E x \in Nodes(c) :
                          \/ Absolute(st.B[x] - B[x]) > e.near
                          \/ \E y \in Nodes(c) : Absolute(st.W[x][y] - W[x][y]) > e.near
                     THEN "differs-from-the-same-request"
                     ELSE "ok"
  ELSE "ok"

TJudge(c, st, e) ==
  CASE e.op = "learn" -> JudgeLearn(c, st, e)
    [] e.op = "rebuild" -> IF e.out # "ok" THEN "reconstruction-failed"
                           ELSE IF ~e.unchanged THEN "arguments-changed"
                           ELSE IF st.known /\ ~RebuildOk(c, st, e) THEN "wrong-reconstruction" ELSE "ok"
    [] OTHER -> "unknown-event"

TStNext(c, st, e) ==
  IF e.op = "learn" /\ e.valid /\ e.t = 0 /\ ~e.hidden
  THEN [known |-> TRUE, req |-> Req(e), W |-> Matrix(c, Edges(e)), B |-> TLCEval(Biases(e))]
  ELSE IF e.op = "learn" THEN [st EXCEPT !.known = FALSE] ELSE st
=============================================================================
