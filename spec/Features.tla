------------------------------- MODULE Features -------------------------------
(***************************************************************************)
(* Variables and the features (columns) they expand to.  A schema is a     *)
(* sequence of [v, type, card]; a feature is <<v, -1>> for a variable that *)
(* is one column and <<v, k>> for category k (from 0) of a categorical     *)
(* variable.  Columns are numbered from 0.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Types == {"binary", "categorical", "continuous", "count"}
OfType(s, t) == LET q == SelectSeq(s, LAMBDA x : x.type = t) IN [k \in 1..Len(q) |-> q[k].v]
Single(vs) == [k \in 1..Len(vs) |-> << vs[k], -1 >>]
Expanded(s) == FoldLeft(LAMBDA acc, x : IF x.type = "categorical" THEN acc \o [k \in 1..x.card |-> << x.v, k - 1 >>] ELSE acc, << >>, s)
FeatureList(s) == Single(OfType(s, "binary")) \o Single(OfType(s, "continuous")) \o Single(OfType(s, "count")) \o Expanded(s)
IndicesOf(s, v) == LET F == FeatureList(s) IN SelectSeq([k \in 1..Len(F) |-> k - 1], LAMBDA k : F[k + 1][1] = v)
Vars(s) == { s[k].v : k \in 1..Len(s) }
TypeOf(s, v) == (CHOOSE x \in { s[k] : k \in 1..Len(s) } : x.v = v).type
Concat(s, vs) == FoldLeft(LAMBDA acc, v : acc \o IndicesOf(s, v), << >>, vs)
NamesOf(s, v) == IF TypeOf(s, v) = "categorical" THEN SelectSeq(Expanded(s), LAMBDA f : f[1] = v) ELSE << << v, -1 >> >>

(* Types as written: [t, c]: the word and what follows the colon (-1: no     *)
(* colon, -2: not a cardinality).                                            *)
GoodType(x) == x.t \in Types
GoodCard(x) == x.t = "categorical" => x.c >= 1
Completed(nodes, schema, default) ==
  [k \in 1..Len(nodes) |-> LET m == { j \in 1..Len(schema) : schema[j].v = nodes[k] }
                           IN  IF m = {} THEN [v |-> nodes[k], t |-> default.t, c |-> default.c] ELSE schema[CHOOSE j \in m : TRUE]]
Acceptable(nodes, schema, default) ==
  /\ GoodType(default)
  /\ LET q == Completed(nodes, schema, default) IN \A k \in 1..Len(q) : GoodType(q[k]) /\ GoodCard(q[k])
=============================================================================
