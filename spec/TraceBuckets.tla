----------------------------- MODULE TraceBuckets -----------------------------
(***************************************************************************)
(* C23.  Histories of one discretiser; the abstract state is the list of   *)
(* its split points.                                                       *)
(***************************************************************************)
EXTENDS TraceBase, Buckets

TSt0(c) == [made |-> FALSE, fitted |-> FALSE, S |-> << >>, exact |-> TRUE]

Set(c) == c.settings
NewSplits(c, e) == TLCEval(SplitPoints(Set(c), e.fit))
Judgement(e, S, exact) ==
  IF e.shape # e.wantshape THEN "shape-changed"
  ELSE IF Len(e.res) # Len(e.data) THEN "wrong-number-of-values"
  ELSE IF \A k \in 1..Len(e.data) : RightBucket(S, e.data[k], e.res[k], exact) THEN "ok"
  ELSE "wrong-bucket"

TJudge(c, st, e) ==
  IF e.out \notin {"ok", "raise"} THEN "no-outcome"
  ELSE IF ~e.unchanged THEN "input-changed"
  ELSE IF e.op = "new"
       THEN IF GoodSettings(Set(c)) THEN (IF e.out = "ok" THEN "ok" ELSE "valid-settings-refused")
            ELSE IF e.out = "raise" /\ e.exc = "ValueError" THEN "ok" ELSE "invalid-settings-accepted"
  ELSE IF e.op \in {"fit", "both"} /\ Set(c).method = "fixed"
       THEN IF e.out = "raise" /\ e.exc = "RuntimeError" THEN "ok" ELSE "fixed-points-fitted"
  ELSE IF e.out = "raise" THEN "call-failed"
  ELSE IF e.op = "fit" THEN "ok"
  ELSE IF e.op = "both" THEN Judgement(e, NewSplits(c, e), c.exact)
  ELSE Judgement(e, st.S, st.exact)

TStNext(c, st, e) ==
  IF e.op = "new" THEN [st EXCEPT !.made = TRUE, !.S = IF Set(c).method = "fixed" /\ GoodSettings(Set(c)) THEN SplitPoints(Set(c), << 0 >>) ELSE << >>]
  ELSE IF e.op \in {"fit", "both"} /\ e.out = "ok" THEN [made |-> TRUE, fitted |-> TRUE, S |-> NewSplits(c, e), exact |-> c.exact]
  ELSE st
=============================================================================
