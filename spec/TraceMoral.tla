----------------------------- MODULE TraceMoral -----------------------------
(* C08: the moral graph joins exactly neighbours and co-parents.             *)
(* event "undirected" / "moral": adj = neighbours of every node as recorded, *)
(* vars = the variable every node carries; event "dag": par, chi afterwards  *)
EXTENDS TraceBase, Graphs

TSt0(case) == 0

Pa(case) == [ v \in 1..case.n |-> Range_(case.pa[v]) ]

AdjVerdict(g, V, e, name) ==
  CASE e.nodes # Cardinality(V) -> name \o "-has-other-nodes"
    [] \E v \in V : e.vars[v] # v -> name \o "-loses-variable-names"
    [] \E v \in V : ~IsInjective_(e.adj[v]) -> name \o "-lists-a-neighbour-twice"
    [] \E v \in V : v \in Range_(e.adj[v]) -> name \o "-has-a-self-loop"
    [] \E v \in V : ~(g[v] \subseteq Range_(e.adj[v])) -> name \o "-misses-an-edge"
    [] \E v \in V : ~(Range_(e.adj[v]) \subseteq g[v]) -> name \o "-has-an-extra-edge"
    [] OTHER -> "ok"

TJudge(case, s, e) ==
  LET V == 1..case.n
      pa == Pa(case)
  IN  CASE e.out # "ok" -> e.op \o "-" \o e.out
        [] e.op = "undirected" -> AdjVerdict(Undirected(V, pa), V, e, "undirected-copy")
        [] e.op = "moral" -> AdjVerdict(Moral(V, pa), V, e, "moral-graph")
        [] e.op = "dag" /\ \E v \in V : Range_(e.par[v]) # pa[v] \/ Range_(e.chi[v]) # Children(V, pa, v)
                                        \/ ~IsInjective_(e.par[v]) \/ ~IsInjective_(e.chi[v]) -> "network-changed"
        [] OTHER -> "ok"

TStNext(case, s, e) == s
=============================================================================
