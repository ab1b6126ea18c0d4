---------------------------- MODULE ExpansionModel ----------------------------
(***************************************************************************)
(* How constraints on columns become constraints on nodes (C32).  The      *)
(* learner visits the columns one after the other, in any order; visiting  *)
(* a categorical column it appends its further nodes and adds, to the      *)
(* banned edges collected so far, the same for each further node and all   *)
(* edges among the nodes of the column.  For every small request the       *)
(* edges banned in the end are those that the definition bans.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json

CONSTANTS Widths        \* number of nodes of each column
W == << 3, 1, 2 >>
WWide == << 3, 2, 1, 2 >>

VARIABLES ban, parents, children,   \* the request: pairs of columns, columns
          todo,                     \* columns not yet visited
          home,                     \* home[x]: the column of node x; nodes 1.. in order of appearance
          banned, noparent, nochild \* what has been made of it, on nodes

vars == << ban, parents, children, todo, home, banned, noparent, nochild >>
Cols == 1..Len(Widths)

Init == /\ ban \in SUBSET { p \in Cols \X Cols : p[1] # p[2] }
        /\ parents \in SUBSET Cols /\ children \in SUBSET Cols
        /\ Cardinality(parents) + Cardinality(children) <= 2
        /\ todo = Cols
        /\ home = [j \in Cols |-> j]
        /\ banned = ban /\ noparent = parents /\ nochild = children

Visit(j) ==
  LET n == Len(home)
      more == (n + 1)..(n + Widths[j] - 1)
      group == {j} \cup more
  IN  /\ todo' = todo \ {j}
      /\ home' = home \o [k \in 1..(Widths[j] - 1) |-> j]
      /\ banned' = banned \cup { <<x, b[2]>> : x \in more, b \in { b \in banned : b[1] = j } }
                          \cup { <<b[1], x>> : x \in more, b \in { b \in banned : b[2] = j /\ b[1] # j } }
                          \cup IF Widths[j] > 1 THEN { p \in group \X group : p[1] # p[2] } ELSE {}
      /\ noparent' = noparent \cup IF j \in noparent THEN more ELSE {}
      /\ nochild' = nochild \cup IF j \in nochild THEN more ELSE {}
      /\ UNCHANGED << ban, parents, children >>

Next == \E j \in todo : Visit(j)
Spec == Init /\ [][Next]_vars

Free(x, y) == x # y /\ << x, y >> \notin banned /\ x \notin noparent /\ y \notin nochild
Meant(x, y) == home[x] # home[y] /\ << home[x], home[y] >> \notin ban /\ home[x] \notin parents /\ home[y] \notin children
EveryNodeAsItsColumn == todo = {} => \A x, y \in 1..Len(home) : Free(x, y) <=> Meant(x, y)
NodesInGroups == todo = {} => \A j \in Cols : Cardinality({ x \in 1..Len(home) : home[x] = j }) = Widths[j]
(* The nodes of the columns themselves keep their places. *)
PlacesKept == \A j \in Cols : home[j] = j
(* Every request is replayed against the code. *)
EmitRequest == (todo = Cols) => PrintT("GEN " \o ToJson([tE |-> SetToSeq(ban), tP |-> SetToSeq(parents), tC |-> SetToSeq(children)]))
=============================================================================
