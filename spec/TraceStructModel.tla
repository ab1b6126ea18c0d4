--------------------------- MODULE TraceStructModel ---------------------------
(***************************************************************************)
(* C17, C18, C19.  Histories of several structure models.  The abstract    *)
(* state is the sequence of all graphs the user holds; after every call    *)
(* all of them are observed, so that a call that changes another graph, or *)
(* a copy that shares something with its original, shows.                  *)
(***************************************************************************)
EXTENDS TraceBase, StructModel

GraphOf(o) == [nodes |-> { o.nodes[i] : i \in 1..Len(o.nodes) },
               edges |-> { [u |-> o.edges[i][1], v |-> o.edges[i][2], o |-> o.edges[i][3],
                            w |-> o.edges[i][4], c |-> o.edges[i][5]] : i \in 1..Len(o.edges) }]
Graphs(obs) == [i \in 1..Len(obs) |-> GraphOf(obs[i])]
Set(s) == { s[i] : i \in 1..Len(s) }

TSt0(c) == << >>

Changed(st, i, g) == [st EXCEPT ![i] = g]
(* The graphs afterwards, for calls with one possible outcome. *)
Expected(st, e) ==
  LET g == st[e.g] IN
  CASE e.op = "construct" -> IF AddIsValid(e) THEN Append(st, Construct(e)) ELSE st
    [] e.op = "add" -> IF AddIsValid(e) THEN Changed(st, e.g, Add(g, e)) ELSE st
    [] e.op = "addnode" -> Changed(st, e.g, AddNode(g, e.u))
    [] e.op = "removeedge" -> IF EdgeOf(g, e.u, e.v) = {} THEN st ELSE Changed(st, e.g, RemoveEdge(g, e.u, e.v))
    [] e.op = "removenode" -> IF e.u \in g.nodes THEN Changed(st, e.g, RemoveNode(g, e.u)) ELSE st
    [] e.op = "copy" -> Append(st, g)
    [] e.op = "reverse" -> Append(st, Reversed(g))
    [] e.op = "subgraph" -> Append(st, Induced(g, Set(e.of)))
    [] e.op = "edgesub" -> Append(st, EdgeInduced(g, Set(e.pairs)))
    [] e.op = "removeedges" -> Changed(st, e.g, RemoveEdges(g, Set(e.pairs)))
    [] e.op = "removenodes" -> Changed(st, e.g, RemoveNodes(g, Set(e.of)))
    [] e.op = "clear" -> Changed(st, e.g, Empty)
    [] e.op = "compose" -> Append(st, Composed(g, st[e.h]))
    [] e.op = "threshold" -> Changed(st, e.g, Threshold(g, e.t2))
    [] e.op = "target" -> IF e.u \in g.nodes THEN Append(st, Induced(g, Weak(g, {e.u}))) ELSE st
    [] OTHER -> st

MayRaise(st, e) ==
  CASE e.op \in {"add", "construct"} -> ~AddIsValid(e)
    [] e.op = "removeedge" -> EdgeOf(st[e.g], e.u, e.v) = {}
    [] e.op \in {"removenode", "target"} -> e.u \notin st[e.g].nodes
    [] OTHER -> FALSE
RightException(e) ==
  CASE e.op \in {"add", "construct"} -> e.exc = "ValueError"
    [] e.op = "target" -> e.exc = "NodeNotFound"
    [] OTHER -> TRUE

OriginsOk(e, now) ==
  \A i \in 1..Len(now) : \A o \in Origins :
    /\ Set(e.by[i][o]) = WithOrigin(now[i], o)
    /\ Len(e.by[i][o]) = Cardinality(WithOrigin(now[i], o))
NoForeignOrigin(now) == \A i \in 1..Len(now) : \A x \in now[i].edges : x.o \in Origins

TJudge(c, st, e) ==
  LET now == TLCEval(Graphs(e.obs)) IN
  IF e.out \notin {"ok", "raise"} THEN "no-outcome"
  ELSE IF MayRaise(st, e) # (e.out = "raise") THEN (IF e.out = "raise" THEN "valid-call-refused" ELSE "invalid-call-accepted")
  ELSE IF e.out = "raise" /\ ~RightException(e) THEN "wrong-exception"
  ELSE IF ~NoForeignOrigin(now) THEN "edge-without-valid-origin"
  ELSE IF ~OriginsOk(e, now) THEN "edges-with-origin-wrong"
  ELSE IF e.strange # "" THEN e.strange
  ELSE IF e.op = "largest"
       THEN IF st[e.g].edges = {} THEN (IF e.none /\ now = st THEN "ok" ELSE "largest-subgraph-of-no-edges")
            ELSE IF ~e.none /\ Len(now) = Len(st) + 1 /\ SubSeq(now, 1, Len(st)) = st /\ IsLargest(st[e.g], now[Len(now)])
                 THEN "ok" ELSE "not-the-largest-subgraph"
  ELSE IF e.op = "tilldag"
       THEN IF Len(now) = Len(st) /\ (\A i \in 1..Len(st) : i # e.g => now[i] = st[i]) /\ ThinnedTo(st[e.g], now[e.g])
            THEN "ok" ELSE "not-thinned-by-least-weights"
  ELSE IF e.op = "undirected" /\ { Set(e.und[i]) : i \in 1..Len(e.und) } # { {x.u, x.v} : x \in st[e.g].edges }
       THEN "undirected-edges-differ"
  ELSE IF now = Expected(st, e) THEN "ok" ELSE "graphs-not-as-expected"

TStNext(c, st, e) == Graphs(e.obs)
=============================================================================
