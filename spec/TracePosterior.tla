--------------------------- MODULE TracePosterior ---------------------------
(* C01: every recorded query returned the exact posterior marginals.         *)
(* case: net; event: op = "query", e = evidence, out, p = for every variable *)
(* and value <<num, den>> (den = 0: no entry, or no rational of the network) *)
EXTENDS TraceBase, Prob

TSt0(case) == Assert(IsNet(case.net), <<"bad net", case.id>>)

TJudge(case, s, e) ==
  IF e.out # "ok" THEN "query-" \o e.out
  ELSE LET net == case.net
           S == TLCEval(Leading(Support(net, e.e)))
           z == TLCEval(SumW(S))
       IN  CASE z = 0 -> "ok"      \* impossible evidence: see C02
             [] \E v \in 1..net.n : \E k \in 1..net.dom[v] : e.p[v][k][2] = 0 ->
                  "no-probability-for-a-value"
             [] \E v \in 1..net.n : \E k \in 1..net.dom[v] :
                  ~SameRatio(e.p[v][k][1], e.p[v][k][2], MarginalW(S, v, k), z) ->
                  "wrong-marginal"
             [] OTHER -> "ok"

TStNext(case, s, e) == s
=============================================================================
