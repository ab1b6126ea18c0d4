---------------------------- MODULE TraceSamples ----------------------------
(* C13: samples are complete, possible and consistent with the evidence.     *)
(* event: e = evidence, n = number requested, samples = assignments (0: no   *)
(* value of the domain), extra = entries for unknown variables, distinct =   *)
(* no two samples are the same object, args = "same" | "changed"             *)
EXTENDS TraceBase, Prob

TSt0(case) == Assert(IsNet(case.net), <<"bad net", case.id>>)

TJudge(case, s, e) ==
  LET net == case.net
      V == 1..net.n
      I == 1..Len(e.samples)
  IN  CASE e.out # "ok" -> "sampling-" \o e.out
        [] Len(e.samples) # e.n -> "wrong-number-of-samples"
        [] e.extra > 0 -> "unknown-variable-in-sample"
        [] \E i \in I : \E v \in V : e.samples[i][v] = 0 -> "incomplete-sample"
        [] \E i \in I : \E v \in V : ~Agrees(e.e, v, e.samples[i][v]) -> "evidence-not-kept"
        [] \E i \in I : \E v \in V : Weight(net, v, e.samples[i], e.samples[i][v]) = 0 -> "impossible-sample"
        [] ~e.distinct -> "samples-share-an-object"
        [] e.args # "same" -> "evidence-changed"
        [] OTHER -> "ok"

TStNext(case, s, e) == s
=============================================================================
