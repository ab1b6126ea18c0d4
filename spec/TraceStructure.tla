--------------------------- MODULE TraceStructure ---------------------------
(* C06: the network has exactly the declared variables and edges.            *)
(* event "nodes": intro = for every node the variable it stands for and the  *)
(* variable of its factor; par, chi = parents and children as recorded       *)
(* event "export": gnodes, gedges as listed in the graphviz text             *)
EXTENDS TraceBase, Graphs

TSt0(case) == 0

Pa(case) == [ v \in 1..case.n |-> Range_(case.pa[v]) ]
Edges(case) == UNION { { <<p, v>> : p \in Range_(case.pa[v]) } : v \in 1..case.n }

TJudge(case, s, e) ==
  LET V == 1..case.n
      pa == Pa(case)
  IN  CASE e.out # "ok" -> "build-" \o e.out
        [] e.op = "nodes" /\ (Len(e.intro) # case.n \/ { e.intro[i][1] : i \in 1..Len(e.intro) } # V) ->
             "not-one-node-per-variable"
        [] e.op = "nodes" /\ \E i \in 1..Len(e.intro) : e.intro[i][1] # e.intro[i][2] ->
             "node-stands-for-another-variable"
        [] e.op = "nodes" /\ \E v \in V : Range_(e.par[v]) # pa[v] \/ ~IsInjective_(e.par[v]) -> "wrong-parents"
        [] e.op = "nodes" /\ \E v \in V : Range_(e.chi[v]) # Children(V, pa, v) \/ ~IsInjective_(e.chi[v]) -> "wrong-children"
        [] e.op = "export" /\ (Range_(e.gnodes) # V \/ ~IsInjective_(e.gnodes)) -> "export-lists-wrong-nodes"
        [] e.op = "export" /\ (Range_(e.gedges) # Edges(case) \/ ~IsInjective_(e.gedges)) -> "export-lists-wrong-edges"
        [] OTHER -> "ok"

TStNext(case, s, e) == s
=============================================================================
