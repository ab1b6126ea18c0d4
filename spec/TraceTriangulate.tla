-------------------------- MODULE TraceTriangulate --------------------------
(* C09: triangulation, replayed elimination by elimination.                  *)
(* case: n, adj = the graph passed in, prio = "fill" (default), "degree" or  *)
(* "rank" with case.rank                                                     *)
(* events: one "eliminate" per entry of the returned ordering, then "end"    *)
(* with adj = the graph after the call and cliques = the returned cliques    *)
(* The state is the design's state: the remaining graph, the filled graph    *)
(* and the clusters met so far.                                              *)
EXTENDS TraceBase, Graphs

Adj0(case) == [ v \in 1..case.n |-> Range_(case.adj[v]) ]
TSt0(case) == [ rest |-> Adj0(case), full |-> Adj0(case), clusters |-> {} ]

Priority(case, g, v) ==
  CASE case.prio = "fill" -> FillCount(g, v)
    [] case.prio = "degree" -> Cardinality(g[v])
    [] case.prio = "antifill" -> 1000 - FillCount(g, v)
    [] OTHER -> case.rank[v]

TJudge(case, s, e) ==
  CASE e.out # "ok" -> "triangulate-" \o e.out
    [] e.op = "eliminate" /\ e.v \notin DOMAIN s.rest -> "eliminated-twice-or-unknown"
    [] e.op = "eliminate" /\ \E u \in DOMAIN s.rest : Priority(case, s.rest, u) < Priority(case, s.rest, e.v) ->
         "not-of-least-priority"
    [] e.op = "end" /\ DOMAIN s.rest # {} -> "node-not-eliminated"
    [] e.op = "end" /\ \E v \in 1..case.n : ~IsInjective_(e.adj[v]) -> "neighbour-listed-twice"
    [] e.op = "end" /\ \E v \in 1..case.n : ~(s.full[v] \subseteq Range_(e.adj[v])) -> "fill-edge-missing"
    [] e.op = "end" /\ \E v \in 1..case.n : ~(Range_(e.adj[v]) \subseteq s.full[v]) -> "unneeded-edge"
    [] e.op = "end" /\ ~IsInjective_(e.cliques) -> "clique-returned-twice"
    [] e.op = "end" /\ { Range_(q) : q \in Range_(e.cliques) } # MaximalSets(s.clusters) -> "not-the-maximal-cliques"
    [] OTHER -> "ok"

TStNext(case, s, e) ==
  IF e.op = "eliminate"
  THEN [ rest |-> TLCEval(Eliminate(s.rest, e.v)),
         full |-> TLCEval(AddEdges(s.full, Fill(s.rest, e.v))),
         clusters |-> s.clusters \cup { Cluster(s.rest, e.v) } ]
  ELSE s
=============================================================================
