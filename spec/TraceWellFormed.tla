--------------------------- MODULE TraceWellFormed ---------------------------
(* C02: every recorded query result is a family of complete distributions.   *)
(* event: e = evidence, out, p = probabilities in units of 10^-8 (-1: no     *)
(* entry, -2: not a finite number), extra = number of unexpected entries,    *)
(* neg = number of negative entries                                          *)
EXTENDS TraceBase, Prob

Unit == 100000000
Near(a, b) == Abs(a - b) <= 10

TSt0(case) == Assert(IsNet(case.net), <<"bad net", case.id>>)

TJudge(case, s, e) ==
  IF e.out # "ok" THEN "query-" \o e.out
  ELSE LET net == case.net
           V == 1..net.n
           sum(v) == FoldLeft(LAMBDA a, b : a + b, 0, e.p[v])
           possible == \/ \A v \in V : e.e[v] = 0
                       \/ Support(net, e.e) # {}
       IN  CASE e.extra > 0 -> "unexpected-entry"
             [] \E v \in V : \E k \in 1..net.dom[v] : e.p[v][k] = -1 -> "missing-entry"
             [] \E v \in V : \E k \in 1..net.dom[v] : e.p[v][k] = -2 -> "not-a-number"
             [] e.neg > 0 -> "negative-entry"
             [] possible /\ \E v \in V : ~Near(sum(v), Unit) -> "sum-is-not-one"
             [] possible /\ \E v \in V : e.e[v] > 0 /\ ~Near(e.p[v][e.e[v]], Unit) ->
                  "observed-value-without-its-mass"
             [] ~possible /\ \E v \in V : \E k \in 1..net.dom[v] : e.p[v][k] # 0 ->
                  "mass-under-impossible-evidence"
             [] OTHER -> "ok"

TStNext(case, s, e) == s
=============================================================================
