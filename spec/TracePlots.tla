------------------------------- MODULE TracePlots -------------------------------
(***************************************************************************)
(* C31.  A structure and its plots.  c.default: the styles n, e, g of the  *)
(* package for nodes, edges and the graph; c.names[v]: the label of v.     *)
(***************************************************************************)
EXTENDS TraceBase, Plots

TSt0(c) == 0
Special(given, v) == FoldLeft(LAMBDA acc, x : IF x[1] = v THEN acc \o x[2] ELSE acc, << >>, given)
SpecialEdge(given, u, v) == FoldLeft(LAMBDA acc, x : IF x[1] = u /\ x[2] = v THEN acc \o x[3] ELSE acc, << >>, given)
NodeStyle(c, e, v) == Layers(<< e.own.nodes[v], << c.names[v] >>, c.default.n, e.given.an, Special(e.given.n, v) >>)
EdgeStyle(c, e, k) == Layers(<< e.own.edges[k], c.default.e, e.given.ae, SpecialEdge(e.given.e, e.pairs[k][1], e.pairs[k][2]) >>)
GraphStyle(c, e) == Layers(<< c.default.g, e.given.g >>)

PlotRight(c, e) ==
  /\ e.directed /\ e.res.prog = e.prog
  /\ Len(e.res.nodes) = c.n /\ { e.res.nodes[i][1] : i \in 1..Len(e.res.nodes) } = 1..c.n
  /\ \A i \in 1..Len(e.res.nodes) : Style(e.res.nodes[i][2]) = NodeStyle(c, e, e.res.nodes[i][1])
  /\ Len(e.res.edges) = Len(e.pairs)
  /\ \A k \in 1..Len(e.pairs) : \E i \in 1..Len(e.res.edges) :
       e.res.edges[i][1] = e.pairs[k][1] /\ e.res.edges[i][2] = e.pairs[k][2] /\ Style(e.res.edges[i][3]) = EdgeStyle(c, e, k)
  /\ Style(e.res.graph) = GraphStyle(c, e)
  /\ e.res.node = << >> /\ e.res.edge = << >>

TJudge(c, st, e) ==
  IF e.out \notin {"ok", "raise"} THEN "no-outcome"
  ELSE IF ~e.unchanged THEN "argument-changed"
  ELSE IF e.op = "display" /\ ~e.imports THEN (IF e.out = "ok" THEN "displayed-without-the-library" ELSE IF e.exc = "ImportError" THEN "ok" ELSE "wrong-exception")
  ELSE IF e.op = "plot" /\ ~e.imports THEN (IF e.out = "ok" THEN "plotted-without-the-library" ELSE IF e.exc = "Warning" THEN "ok" ELSE "wrong-exception")
  ELSE IF e.out = "raise" THEN "refused"
  ELSE CASE e.op = "plot" -> IF PlotRight(c, e) THEN "ok" ELSE "wrong-plot"
         [] e.op = "gradient" -> IF Gradient(e.from, e.to, e.steps, e.colors) /\ \A k \in 1..Len(e.share) : e.share[k] * (e.steps + 1) \in (10000 - 60 * (e.steps + 1))..(10000 + 60 * (e.steps + 1)) THEN "ok" ELSE "wrong-gradient"
         [] e.op = "display" -> IF e.calls = << e.prog >> /\ e.size = << 1, 1 >> THEN "ok" ELSE "wrong-picture"
         [] OTHER -> "unknown-event"
TStNext(c, st, e) == st
=============================================================================
