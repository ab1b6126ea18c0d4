----------------------------- MODULE TraceEngine -----------------------------
(***************************************************************************)
(* C15, C16.  Histories of an inference engine: every intervention is      *)
(* accepted exactly when the model accepts it, and every query gives the   *)
(* posterior marginals of the mutilated network that the interventions in  *)
(* force define.                                                           *)
(***************************************************************************)
EXTENDS TraceBase, Engine

TSt0(c) == NoIntervention(c.net)

Posterior(net, S, z, p) ==
  \A v \in 1..net.n : \A k \in 1..net.dom[v] :
    IF z = 0 THEN p[v][k] = << 0, 1 >>
    ELSE SameRatio(MarginalW(S, v, k), z, p[v][k][1], p[v][k][2]) /\ p[v][k][2] > 0

TJudge(c, do, e) ==
  CASE e.op = "build" -> IF e.out = "ok" THEN "ok" ELSE "engine-not-built"
    [] e.op = "unfit" -> IF e.out = "ok" THEN "unfit-network-accepted" ELSE IF e.exc = "ValueError" THEN "ok" ELSE "wrong-exception"
    [] e.op = "network" -> IF e.out = "same" THEN "ok" ELSE "network-changed"
    [] e.op = "badquery" -> IF e.out = "raise" THEN "ok" ELSE "bad-query-accepted"
    [] e.op = "reset" -> IF e.out = "ok" THEN "ok" ELSE "reset-failed"
    [] e.op = "do" ->
         IF Accepts(c.net, do, e)
         THEN IF e.out = "ok" THEN "ok" ELSE "intervention-refused"
         ELSE IF e.out # "raise" THEN "invalid-intervention-accepted"
         ELSE IF e.v # 0 /\ e.exc # "ValueError" THEN "wrong-exception" ELSE "ok"
    [] e.op = "query" ->
         IF e.out # "ok" THEN "query-failed"
         ELSE IF e.args # "same" THEN "observations-changed"
         ELSE IF e.extra # 0 THEN "unknown-entries"
         ELSE LET m == TLCEval(Mutilated(c.net, do))
                  S == TLCEval(Support(m, e.e))
              IN  IF Posterior(c.net, S, SumW(S), e.p) THEN "ok" ELSE "not-the-interventional-posterior"
    [] OTHER -> "unknown-event"

TStNext(c, do, e) ==
  CASE e.op = "do" -> After(c.net, do, e)
    [] e.op = "reset" -> AfterReset(do, e.v)
    [] OTHER -> do
=============================================================================
