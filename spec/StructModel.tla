----------------------------- MODULE StructModel -----------------------------
(***************************************************************************)
(* Structure models: directed graphs over positive numbers with an origin, *)
(* a weight and a cost on every edge.  A graph is a record of a set of     *)
(* nodes and a set of edges [u, v, o, w, c]; there is at most one edge     *)
(* from u to v.  Weights and costs are integers (None where absent).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

None == 1000000
Origins == {"unknown", "learned", "expert"}
Empty == [nodes |-> {}, edges |-> {}]

EdgeOf(g, u, v) == { e \in g.edges : e.u = u /\ e.v = v }
Given(a, b) == IF a # None THEN a ELSE b

(* One edge is added or updated; what is not given stays as it was. *)
Put(g, u, v, o, w, c) ==
  LET old == EdgeOf(g, u, v)
      w0  == IF old = {} THEN None ELSE (CHOOSE e \in old : TRUE).w
      c0  == IF old = {} THEN None ELSE (CHOOSE e \in old : TRUE).c
  IN  [nodes |-> g.nodes \cup {u, v},
       edges |-> (g.edges \ old) \cup { [u |-> u, v |-> v, o |-> o, w |-> Given(w, w0), c |-> Given(c, c0)] }]

(* A request r adds the edges r.items; an item's own origin, weight and cost *)
(* take precedence over those of the request; "" stands for no origin.       *)
OriginOf(r) == IF r.origin = "" THEN "unknown" ELSE r.origin
AddIsValid(r) == /\ OriginOf(r) \in Origins
                 /\ \A i \in 1..Len(r.items) : r.items[i].o \in Origins \cup {""}
Add(g, r) ==
  FoldLeft(LAMBDA h, i : Put(h, i.u, i.v, IF i.o = "" THEN OriginOf(r) ELSE i.o, Given(i.w, r.w), Given(i.c, r.c)),
           g, r.items)

(* A graph made of other data: all edges get the one origin. *)
Construct(r) ==
  LET g == FoldLeft(LAMBDA h, i : Put(h, i.u, i.v, OriginOf(r), i.w, i.c), [nodes |-> { r.nodes[i] : i \in 1..Len(r.nodes) }, edges |-> {}], r.items)
  IN  g

WithOrigin(g, o) == { << e.u, e.v >> : e \in { x \in g.edges : x.o = o } }

RemoveEdge(g, u, v) == [g EXCEPT !.edges = @ \ EdgeOf(g, u, v)]
Induced(g, N) == [nodes |-> g.nodes \cap N, edges |-> { e \in g.edges : e.u \in N /\ e.v \in N }]
RemoveNode(g, u) == Induced(g, g.nodes \ {u})
RemoveEdges(g, P) == [g EXCEPT !.edges = { e \in @ : << e.u, e.v >> \notin P }]
RemoveNodes(g, N) == Induced(g, g.nodes \ N)
EdgeInduced(g, P) == LET E == { e \in g.edges : << e.u, e.v >> \in P }
                     IN  [nodes |-> { e.u : e \in E } \cup { e.v : e \in E }, edges |-> E]
(* Both graphs together; where both have an edge, the second one decides    *)
(* what it says.                                                            *)
Composed(g, h) == FoldSet(LAMBDA e, k : Put(k, e.u, e.v, e.o, e.w, e.c), [g EXCEPT !.nodes = @ \cup h.nodes], h.edges)
AddNode(g, u) == [g EXCEPT !.nodes = @ \cup {u}]
Reversed(g) == [g EXCEPT !.edges = { [u |-> e.v, v |-> e.u, o |-> e.o, w |-> e.w, c |-> e.c] : e \in g.edges }]

Mag(x) == IF x < 0 THEN -x ELSE x

(* ------------------------------ thresholds ----------------------------- *)
AllWeighted(g) == \A e \in g.edges : e.w # None
(* 2t, to be able to ask about thresholds between weights *)
Threshold(g, t2) == [g EXCEPT !.edges = { e \in g.edges : 2 * Mag(e.w) >= t2 }]

Succ(g, V) == { e.v : e \in { x \in g.edges : x.u \in V } }
RECURSIVE Reach(_, _)
Reach(g, V) == LET W == TLCEval(V \cup Succ(g, V)) IN IF W = V THEN V ELSE Reach(g, W)
IsDag(g) == \A u \in g.nodes : u \notin Reach(g, Succ(g, {u}))

(* h results from removing, one by one and only while there is a cycle, an   *)
(* edge of least absolute weight.                                            *)
ThinnedTo(g, h) ==
  LET R == g.edges \ h.edges
      maxR == Max({ Mag(e.w) : e \in R })
  IN  /\ h.nodes = g.nodes /\ h.edges \subseteq g.edges
      /\ IsDag(h)
      /\ IF R = {} THEN TRUE
         ELSE /\ \A e \in h.edges : Mag(e.w) >= maxR
              /\ \E e \in R : Mag(e.w) = maxR /\ ~IsDag([h EXCEPT !.edges = @ \cup {e}])

(* ------------------------------- subgraphs ----------------------------- *)
NbOf(g, V) == Succ(g, V) \cup { e.u : e \in { x \in g.edges : x.v \in V } }
RECURSIVE Weak(_, _)
Weak(g, V) == LET W == TLCEval(V \cup NbOf(g, V)) IN IF W = V THEN V ELSE Weak(g, W)
Components(g) == { Weak(g, {u}) : u \in g.nodes }
EdgeCount(g, C) == Cardinality(Induced(g, C).edges)
IsLargest(g, h) ==
  \E C \in Components(g) : /\ h = Induced(g, C)
                           /\ h.edges # {}
                           /\ \A D \in Components(g) : EdgeCount(g, D) <= Cardinality(h.edges)
=============================================================================
