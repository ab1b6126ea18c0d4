---------------------------- MODULE TraceJoinTree ----------------------------
(* C10: the join tree is a tree with the running intersection property.      *)
(* event "tree": cliques = variables of every cluster; seps = for every      *)
(* separator its variables and the clusters it is adjacent to; cnb = for     *)
(* every cluster the separators it is adjacent to; strange = tree nodes that *)
(* are neither                                                               *)
EXTENDS TraceBase, Graphs

TSt0(case) == 0

TJudge(case, s, e) ==
  IF e.out # "ok" THEN "join-tree-" \o e.out
  ELSE
  LET V  == 1..case.n
      C  == 1..Len(e.cliques)
      S  == 1..Len(e.seps)
      cl == TLCEval([ i \in C |-> Range_(e.cliques[i]) ])
      sv == TLCEval([ j \in S |-> Range_(e.seps[j].vars) ])
      sn == TLCEval([ j \in S |-> Range_(e.seps[j].nb) ])
      nb == TLCEval([ i \in C |-> (UNION { sn[j] : j \in { j \in S : j \in Range_(e.cnb[i]) } }) \ {i} ])
  IN  CASE e.strange > 0 -> "unknown-node-in-tree"
        [] \E i \in C : ~(cl[i] \subseteq V) \/ ~IsInjective_(e.cliques[i]) -> "cluster-with-unknown-variable"
        [] UNION { cl[i] : i \in C } # V -> "variable-in-no-cluster"
        [] \E j \in S : Len(e.seps[j].nb) # 2 \/ Cardinality(sn[j]) # 2 \/ ~(sn[j] \subseteq C) -> "separator-does-not-link-two-clusters"
        [] \E j \in S : \E i \in C : (i \in sn[j]) # (j \in Range_(e.cnb[i])) -> "adjacency-not-symmetric"
        [] \E i \in C : ~IsInjective_(e.cnb[i]) \/ ~(Range_(e.cnb[i]) \subseteq S) -> "separator-linked-twice"
        [] Len(e.seps) + 1 # Len(e.cliques) -> "not-a-tree"
        [] ~Connected(nb, C) -> "not-connected"
        [] \E j \in S : \E a \in sn[j] : \E b \in sn[j] \ {a} : sv[j] # cl[a] \cap cl[b] \/ ~IsInjective_(e.seps[j].vars) ->
             "separator-is-not-the-intersection"
        [] \E v \in V : ~ \E i \in C : ({v} \cup Range_(case.pa[v])) \subseteq cl[i] -> "family-in-no-cluster"
        [] \E i \in C : \E k \in C \ {i} : cl[i] \subseteq cl[k] -> "cluster-inside-another"
        [] \E v \in V : Cardinality({ i \in C : v \in cl[i] }) # Cardinality({ j \in S : v \in sv[j] }) + 1 ->
             "running-intersection-broken"
        [] OTHER -> "ok"

TStNext(case, s, e) == s
=============================================================================
