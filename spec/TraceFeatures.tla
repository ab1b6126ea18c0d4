----------------------------- MODULE TraceFeatures -----------------------------
(***************************************************************************)
(* C24.  Questions to a mapper of variables to features, and completed     *)
(* schemas.                                                                *)
(***************************************************************************)
EXTENDS TraceBase, Features

TSt0(c) == 0
RangeOf(s) == { s[k] : k \in 1..Len(s) }
SameBag(a, b) == SortSeq(a, LAMBDA x, y : x < y) = SortSeq(b, LAMBDA x, y : x < y)

Answer(c, e) ==
  LET s == c.schema IN
  CASE e.op = "features" -> e.seq = FeatureList(s)
    [] e.op = "variables" -> Len(e.vars) = Len(s) /\ RangeOf(e.vars) = Vars(s)
    [] e.op = "counts" -> e.ints = << Len(s), Len(FeatureList(s)) >>
    [] e.op = "oftype" -> e.vars = OfType(s, e.type)
    [] e.op = "istype" -> e.flag = (e.v \in Vars(s) /\ TypeOf(s, e.v) = e.type)
    [] e.op = "indices" -> e.ints = IndicesOf(s, e.v)
    [] e.op = "squeezed" -> IF TypeOf(s, e.v) = "categorical" THEN ~e.flag /\ e.ints = IndicesOf(s, e.v) ELSE e.flag /\ e.ints = IndicesOf(s, e.v)
    [] e.op = "indiceslist" -> e.ints = Concat(s, e.of)
    [] e.op = "indicesset" -> SameBag(e.ints, Concat(s, e.of))
    [] e.op = "categorical" -> /\ { e.groups[k] : k \in 1..Len(e.groups) } = { IndicesOf(s, v) : v \in RangeOf(OfType(s, "categorical")) }
                               /\ Len(e.groups) = Len(OfType(s, "categorical"))
    [] e.op = "names" -> e.seq = NamesOf(s, e.v) /\ e.flag = (TypeOf(s, e.v) = "categorical")
    [] e.op = "featureindex" -> /\ Len(e.ints) = 1 /\ e.ints[1] + 1 \in 1..Len(FeatureList(s))
                                /\ FeatureList(s)[e.ints[1] + 1] = e.feature
    [] e.op = "complete" -> /\ Len(e.done) = Cardinality(RangeOf(e.nodes))
                            /\ RangeOf(e.done) = RangeOf(Completed(e.nodes, e.given, e.default))
    [] OTHER -> FALSE

MustRaise(c, e) ==
  CASE e.op \in {"oftype", "istype"} -> e.type \notin Types
    [] e.op \in {"indices", "squeezed"} -> e.v \notin Vars(c.schema)
    [] e.op = "indiceslist" -> \E k \in 1..Len(e.of) : e.of[k] \notin Vars(c.schema)
    [] e.op = "indicesset" -> \E k \in 1..Len(e.of) : e.of[k] \notin Vars(c.schema)
    [] e.op = "featureindex" -> e.feature \notin RangeOf(FeatureList(c.schema))
    [] e.op = "complete" -> ~Acceptable(e.nodes, e.given, e.default)
    [] OTHER -> FALSE
(* A name that is no variable at all is a lookup error, a categorical        *)
(* variable in place of a feature a wrong value.                             *)
RightError(c, e) == IF e.op = "featureindex" /\ e.feature[1] \notin Vars(c.schema) THEN TRUE ELSE e.exc = "ValueError"

TJudge(c, st, e) ==
  IF e.out \notin {"ok", "raise"} THEN "no-outcome"
  ELSE IF ~e.unchanged THEN "argument-changed"
  ELSE IF e.out = "raise" THEN (IF ~MustRaise(c, e) THEN "valid-question-refused" ELSE IF RightError(c, e) THEN "ok" ELSE "wrong-exception")
  ELSE IF MustRaise(c, e) THEN "invalid-question-answered"
  ELSE IF Answer(c, e) THEN "ok" ELSE "wrong-answer"
TStNext(c, st, e) == st
=============================================================================
