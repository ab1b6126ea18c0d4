------------------------------ MODULE TraceLearn ------------------------------
(***************************************************************************)
(* C20, C21.  A history is a sequence of learning requests on the same     *)
(* data; the abstract state remembers the result of the latest request     *)
(* without a threshold.                                                    *)
(***************************************************************************)
EXTENDS TraceBase, Learn

Edges(e) == { e.edges[k] : k \in 1..Len(e.edges) }
TSt0(c) == [known |-> FALSE, req |-> << >>, res |-> {}]

Req(e) == << e.kind, e.d, e.p, e.penW, e.penA, e.tE, e.tP, e.tC, e.shape, e.iter >>

(* The equations that must hold: all of them if the constraints leave only   *)
(* acyclic structures.                                                       *)
EquationsOk(e, E) ==
  LET G == GramLags(e)
  IN  \A a \in 1..(e.d * (e.p + 1)) : \A j \in 1..e.d :
        Allowed(e, LagOf(e, a), VarOf(e, a), j) => Stationary(e, G, E, a, j)

(* Otherwise the order is part of the answer.  The weights must be optimal    *)
(* for the order found: the penalty on cycles has no slope at an edge of a   *)
(* result that is acyclic up to tiny weights, so the equations of the heavy  *)
(* edges and of all edges out of the past hold.                              *)
Heavy(E, t) == { e \in E : Mag(e[4]) >= t }
OptimalForItsOrder(e, E) ==
  LET G == GramLags(e)
      c == e.d * (e.p + 1)
  IN  \A a \in 1..c : \A j \in 1..e.d :
        (Allowed(e, LagOf(e, a), VarOf(e, a), j) /\ (LagOf(e, a) > 0 \/ Mag(WeightOf(E, e, a, j)) >= 1000))
        => Stationary(e, G, E, a, j)
Now(E) == { <<e[1], e[3]>> : e \in { x \in E : x[2] = 0 } }

TJudge(c, st, e) ==
  LET E == TLCEval(Edges(e)) IN
  IF ~e.valid THEN (IF e.out = "raise" /\ e.exc = "ValueError" THEN "ok" ELSE "bad-data-accepted")
  ELSE IF e.out # "ok" THEN "request-failed"
  ELSE IF ~e.unchanged THEN "arguments-changed"
  ELSE IF e.strange # "" THEN e.strange
  ELSE IF Len(e.nodes) # e.d * (e.p + 1) \/ { e.nodes[k] : k \in 1..Len(e.nodes) } # { <<i, l>> : i \in 1..e.d, l \in 0..e.p }
       THEN "nodes-are-not-the-variables"
  ELSE IF Cardinality({ <<x[1], x[2], x[3]>> : x \in E }) # Len(e.edges) THEN "edge-listed-twice"
  ELSE IF \E x \in E : x[5] # 0 THEN "edge-into-the-past"
  ELSE IF \E x \in E : ~Allowed(e, x[2], x[1], x[3]) THEN "forbidden-edge"
  ELSE IF e.t > 0 /\ \E x \in E : Mag(x[4]) < e.t - 1 THEN "edge-below-threshold"
  ELSE IF e.face = "pandas" /\ \E x \in E : x[6] # "learned" THEN "origin-not-learned"
  ELSE IF ~e.warned /\ e.t >= 3000 /\ e.d <= 5 /\ ~Acyclic(Now(E)) THEN "heavy-cycle"
  ELSE IF e.iter > 0 /\ e.warned THEN "ok"   \* stopped early, and said so
  ELSE IF Ordered(e) /\ e.t = 0 /\ c.optimum /\ ~EquationsOk(e, E) THEN "not-the-optimum"
  ELSE IF c.optimum /\ Len(e.Z) > 0 /\ e.warned THEN "not-converged"
  ELSE IF ~Ordered(e) /\ e.t = 0 /\ Len(e.Z) > 0 /\ c.optimum /\ ~OptimalForItsOrder(e, E) THEN "not-the-optimum-of-its-order"
  ELSE IF Ordered(e) /\ st.known /\ st.req = Req(e)
          /\ \/ \E x \in st.res : Mag(x[4]) >= e.t + e.near /\ ~\E y \in E : y[1] = x[1] /\ y[2] = x[2] /\ y[3] = x[3] /\ Mag(y[4] - x[4]) <= e.near
             \/ \E y \in E : ~\E x \in st.res : y[1] = x[1] /\ y[2] = x[2] /\ y[3] = x[3] /\ Mag(y[4] - x[4]) <= e.near
       THEN "differs-from-the-same-request"
  ELSE "ok"

TStNext(c, st, e) == IF e.valid /\ e.t = 0 THEN [known |-> TRUE, req |-> Req(e), res |-> Edges(e)] ELSE st
=============================================================================
