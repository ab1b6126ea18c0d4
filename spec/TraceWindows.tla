----------------------------- MODULE TraceWindows -----------------------------
(***************************************************************************)
(* C22.  Histories of one transformer: fit, transform, both in one call.   *)
(***************************************************************************)
EXTENDS TraceBase, Windows

TSt0(c) == [fitted |-> FALSE, cols |-> << >>, df |-> TRUE]

HasAll(fs, cols) == \A k \in 1..Len(fs) : \A j \in 1..Len(cols) : \E m \in 1..Len(fs[k].cols) : fs[k].cols[m] = cols[j]

Accept(c, st, e) ==
  CASE e.op = "fit" -> GoodInput(e.frames)
    [] e.op = "transform" -> st.fitted /\ GoodInput(e.frames) /\ HasAll(e.frames, st.cols)
    [] e.op = "both" -> GoodInput(e.frames)
Columns(st, e) == IF e.op = "transform" THEN st.cols ELSE e.frames[1].cols
AsFrame(st, e) == IF e.op = "transform" THEN st.df ELSE e.df
Right(st, e) ==
  LET fs == e.frames IN
  IF e.op = "transform" /\ ~st.fitted THEN e.exc = "NotFittedError"
  ELSE IF Len(fs) = 0 THEN e.exc = "ValueError"
  ELSE IF \A k \in 1..Len(fs) : fs[k].kind = "frame" /\ fs[k].intidx THEN e.exc = "ValueError"
  ELSE e.exc \in {"ValueError", "TypeError"}

TJudge(c, st, e) ==
  IF e.out \notin {"ok", "raise"} THEN "no-outcome"
  ELSE IF ~e.unchanged THEN "input-changed"
  ELSE IF e.out = "raise" THEN (IF Accept(c, st, e) THEN "valid-input-refused" ELSE IF Right(st, e) THEN "ok" ELSE "wrong-exception")
  ELSE IF ~Accept(c, st, e) THEN "invalid-input-accepted"
  ELSE IF e.op = "fit" THEN "ok"
  ELSE LET want == Transformed(e.frames, Columns(st, e), c.p)
           d    == Len(Columns(st, e))
       IN  IF e.isdf # AsFrame(st, e) THEN "wrong-kind-of-result"
           ELSE IF e.isdf /\ e.names # Names(Columns(st, e), c.p) THEN "wrong-column-names"
           ELSE IF ~e.isdf /\ (e.split[1] # d \/ e.split[2] # d * c.p) THEN "wrong-shapes"
           ELSE IF e.rows = want THEN "ok" ELSE "wrong-windows"

TStNext(c, st, e) ==
  IF e.out = "ok" /\ e.op \in {"fit", "both"} THEN [fitted |-> TRUE, cols |-> e.frames[1].cols, df |-> e.df] ELSE st
=============================================================================
