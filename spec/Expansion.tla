------------------------------ MODULE Expansion ------------------------------
(***************************************************************************)
(* Structures over columns of several distribution types.  c.kinds[j] is   *)
(* the type of column j, c.X the data (rows of integers).  A categorical   *)
(* column has one node for each of its values, every other column one      *)
(* node; a node is a pair << column, place of the value among the values   *)
(* in increasing order, from 0 >>.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

Columns(c) == 1..Len(c.kinds)
Values(c, j) == SetToSortSeq({ c.X[n][j] : n \in 1..Len(c.X) }, <)
Wide(c, j) == IF c.kinds[j] = "cat" THEN Len(Values(c, j)) ELSE 1
Rank(vs, x) == Cardinality({ k \in 1..Len(vs) : vs[k] < x })
Nodes(c) == { <<j, k>> : j \in Columns(c), k \in 0..40 } \cap UNION { { <<j, k>> : k \in 0..(Wide(c, j) - 1) } : j \in Columns(c) }
(* What stands at a node of a row of data. *)
Reading(c, row, x) ==
  CASE c.kinds[x[1]] = "cat" -> (IF Rank(Values(c, x[1]), row[x[1]]) = x[2] THEN 1 ELSE 0)
    [] c.kinds[x[1]] = "ord" -> Rank(Values(c, x[1]), row[x[1]])
    [] OTHER -> row[x[1]]

(* Constraints are given on columns and hold for all of their nodes. *)
Listed(x, s) == \E k \in 1..Len(s) : s[k] = x
AllowedColumns(r, i, j) == i # j /\ ~Listed(<<i, j>>, r.tE) /\ ~Listed(i, r.tP) /\ ~Listed(j, r.tC)
AllowedNodes(r, x, y) == AllowedColumns(r, x[1], y[1])

RECURSIVE From(_, _)
From(E, V) == LET W == TLCEval(V \cup { e[2] : e \in { x \in E : x[1] \in V } }) IN IF W = V THEN V ELSE From(E, W)
NoCycle(E) == \A e \in E : e[1] \notin From(E, {e[2]})
OneOrder(c, r) == NoCycle({ x \in Columns(c) \X Columns(c) : AllowedColumns(r, x[1], x[2]) })
=============================================================================
