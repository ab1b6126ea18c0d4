------------------------------- MODULE Graphs -------------------------------
(***************************************************************************)
(* Directed and undirected graphs over 1..n, as the join tree construction *)
(* uses them.  An undirected graph is a function from vertices to the set  *)
(* of neighbours.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

Range_(s) == { s[i] : i \in 1..Len(s) }
IsInjective_(s) == Cardinality(Range_(s)) = Len(s)

(* ------------------------------- directed ------------------------------ *)
(* pa[v]: the set of parents *)
Ancestors1(pa, S) == S \cup UNION { pa[v] : v \in S }
RECURSIVE Closure(_, _)
Closure(pa, S) == LET T == Ancestors1(pa, S) IN IF T = S THEN S ELSE Closure(pa, T)
Acyclic(V, pa) == \A v \in V : v \notin Closure(pa, pa[v])

Children(V, pa, v) == { u \in V : v \in pa[u] }

Undirected(V, pa) == [ v \in V |-> pa[v] \cup Children(V, pa, v) ]
CoParents(V, pa, v) == (UNION { pa[u] : u \in Children(V, pa, v) }) \ {v}
Moral(V, pa) == [ v \in V |-> pa[v] \cup Children(V, pa, v) \cup CoParents(V, pa, v) ]

(* ----------------------------- elimination ----------------------------- *)
Cluster(g, v) == {v} \cup g[v]
(* Unordered pairs, as two-element sets, that v's elimination would connect. *)
Fill(g, v) == { e \in { {a, b} : a, b \in g[v] } :
                  Cardinality(e) = 2 /\ \E a \in e : \E b \in e \ {a} : b \notin g[a] }
FillCount(g, v) == Cardinality(Fill(g, v))
AddEdges(g, E) == [ v \in DOMAIN g |-> g[v] \cup UNION { e \ {v} : e \in { f \in E : v \in f } } ]
Without(g, v) == [ u \in DOMAIN g \ {v} |-> g[u] \ {v} ]
Eliminate(g, v) == Without(AddEdges(g, Fill(g, v)), v)

MaximalSets(F) == { C \in F : ~ \E D \in F : C # D /\ C \subseteq D }

IsComplete(g, C) == \A a \in C : \A b \in C \ {a} : b \in g[a]
(* By definition; only for small graphs. *)
MaximalCliques(g) == MaximalSets({ C \in SUBSET (DOMAIN g) : C # {} /\ IsComplete(g, C) })

(* Chordal: repeatedly removing simplicial vertices removes everything. *)
RECURSIVE Chordal(_)
Chordal(g) ==
  \/ DOMAIN g = {}
  \/ LET S == { v \in DOMAIN g : IsComplete(g, g[v]) }
     IN  S # {} /\ Chordal(Without(g, CHOOSE v \in S : TRUE))

IsSymmetric(g) == \A v \in DOMAIN g : \A u \in g[v] : u \in DOMAIN g /\ v \in g[u]

(* ------------------------------ connection ----------------------------- *)
RECURSIVE ReachFrom(_, _, _)
ReachFrom(nb, seen, frontier) ==
  IF frontier = {} THEN seen
  ELSE LET new == TLCEval((UNION { nb[v] : v \in frontier }) \ seen)
       IN  ReachFrom(nb, TLCEval(seen \cup new), new)
Connected(nb, V) == V = {} \/ LET v == CHOOSE v \in V : TRUE IN V \subseteq ReachFrom(nb, {v}, {v})
=============================================================================
