------------------------------ MODULE StructGen ------------------------------
(***************************************************************************)
(* Histories of structure models over two nodes: edges added in several    *)
(* ways and with several origins, refused additions, removals, copies and  *)
(* subgraphs.  Emitted for replay against the code (C17).                  *)
(***************************************************************************)
EXTENDS StructModel, Json
CONSTANTS Depth, Emit
VARIABLES graphs, hist
vars == <<graphs, hist>>

Item(u, v, o, w) == [u |-> u, v |-> v, o |-> o, w |-> w, c |-> None]
Requests(via) ==
  { [op |-> "add", via |-> via, origin |-> o, w |-> None, c |-> None, items |-> it] :
      o \in {"", "learned", "expert", "bad"},
      it \in (IF via = "edge" THEN { << Item(1, 2, "", None) >>, << Item(2, 1, "", None) >> }
              ELSE IF via = "edges" THEN { << Item(1, 2, "expert", 3), Item(2, 1, "", None) >>, << Item(1, 2, "bad", None) >>, << >> }
              ELSE { << Item(1, 2, "", 3) >> }) }

Init == graphs = << Empty >> /\ hist = << >>
With(g, r) == [op |-> r.op, via |-> r.via, origin |-> r.origin, w |-> r.w, c |-> r.c, items |-> r.items, g |-> g]
Do(op) == hist' = Append(hist, op)
Next == /\ Len(hist) < Depth
        /\ \E i \in 1..Len(graphs) :
             \/ \E via \in {"edge", "edges", "weighted"} : \E r \in Requests(via) :
                  /\ graphs' = IF AddIsValid(r) THEN [graphs EXCEPT ![i] = Add(graphs[i], r)] ELSE graphs
                  /\ Do(With(i, r))
             \/ graphs' = [graphs EXCEPT ![i] = RemoveEdge(graphs[i], 1, 2)] /\ Do([op |-> "removeedge", g |-> i, u |-> 1, v |-> 2])
             \/ graphs' = [graphs EXCEPT ![i] = IF 2 \in @.nodes THEN RemoveNode(@, 2) ELSE @] /\ Do([op |-> "removenode", g |-> i, u |-> 2])
             \/ Len(graphs) < 3 /\ graphs' = Append(graphs, graphs[i]) /\ Do([op |-> "copy", g |-> i])
             \/ Len(graphs) < 3 /\ graphs' = Append(graphs, Reversed(graphs[i])) /\ Do([op |-> "reverse", g |-> i])
Spec == Init /\ [][Next]_vars

EveryEdgeHasOrigin == \A i \in 1..Len(graphs) : \A e \in graphs[i].edges : e.o \in Origins
OneEdgeEach == \A i \in 1..Len(graphs) : \A e, f \in graphs[i].edges : (e.u = f.u /\ e.v = f.v) => e = f
EndsAreNodes == \A i \in 1..Len(graphs) : \A e \in graphs[i].edges : {e.u, e.v} \subseteq graphs[i].nodes
PartitionByOrigin == \A i \in 1..Len(graphs) :
  Cardinality(graphs[i].edges) = Cardinality(UNION { WithOrigin(graphs[i], o) : o \in Origins })
(* A call changes at most one graph. *)
OthersKept == [][ Cardinality({ i \in 1..Len(graphs) : graphs'[i] # graphs[i] }) <= 1 ]_vars
EmitHist == (Emit /\ Len(hist) = Depth) => PrintT("GEN " \o ToJson(hist))
=============================================================================
