---------------------------- MODULE TraceGenerated ----------------------------
(* C27.  Structures made by the generators.                                  *)
EXTENDS TraceBase, Generators

TSt0(c) == 0
AsSet(s) == { s[k] : k \in 1..Len(s) }

Judged(valid, right, e) ==
  IF e.out \notin {"ok", "raise"} THEN "no-outcome"
  ELSE IF ~valid THEN (IF e.out = "ok" THEN "invalid-request-accepted" ELSE IF e.exc = "ValueError" THEN "ok" ELSE "wrong-exception")
  ELSE IF e.out = "raise" THEN "valid-request-refused"
  ELSE IF right THEN "ok" ELSE "wrong-structure"

TJudge(c, st, e) ==
  CASE e.op = "structure" ->
         Judged(ValidStructureArgs(e.n, e.type, e.lo, e.hi),
                /\ AsSet(e.nodes) = 0..(e.n - 1) /\ Len(e.nodes) = e.n
                /\ LawfulStructure(0..(e.n - 1), AsSet(e.edges), e.n, e.type, e.degree, AbsOf(e.lo), AbsOf(e.hi)), e)
    [] e.op = "dynamic" ->
         Judged(ValidStructureArgs(e.n, e.type, e.lo, e.hi) /\ e.plo <= e.phi /\ e.ptype \in {"full", "erdos-renyi"},
                /\ AsSet(e.lagged) = (0..(e.n - 1)) \X (0..e.p) /\ Len(e.lagged) = e.n * (e.p + 1)
                /\ ~e.stray
                /\ LawfulStructure(0..(e.n - 1), AsSet(e.edges), e.n, e.type, e.degree, AbsOf(e.lo), AbsOf(e.hi))
                /\ LawfulPast(AsSet(e.past), e.n, e.p, e.ptype, e.pdegree, e.plo, e.phi, e.num, e.den), e)
    [] e.op = "counts" ->   \* e.counts: << count, trials, a, b >>
         IF e.out # "ok" THEN "no-outcome"
         ELSE IF \A k \in 1..Len(e.counts) : LikelyCount(e.counts[k][1], e.counts[k][2], e.counts[k][3], e.counts[k][4]) THEN "ok" ELSE "unlikely-frequencies"
    [] OTHER -> "unknown-event"
TStNext(c, st, e) == st
=============================================================================
