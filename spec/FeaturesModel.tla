----------------------------- MODULE FeaturesModel -----------------------------
(***************************************************************************)
(* Laws of the correspondence of variables, features and columns, for      *)
(* every schema of up to Size variables built one variable at a time; the  *)
(* schemas are emitted for replay (C24).                                   *)
(***************************************************************************)
EXTENDS Features, Json, FiniteSetsExt

CONSTANTS Size, MaxCard, Emit
VARIABLES schema
vars == << schema >>

Kinds == { << t, 0 >> : t \in Types \ {"categorical"} } \cup { << "categorical", c >> : c \in 1..MaxCard }
Init == schema = << >>
Add == /\ Len(schema) < Size
       /\ \E q \in Kinds : schema' = Append(schema, [v |-> Len(schema), type |-> q[1], card |-> q[2]])
Spec == Init /\ [][Add]_vars

F == FeatureList(schema)
Width(x) == IF x.type = "categorical" THEN x.card ELSE 1
Range_(s) == { s[k] : k \in 1..Len(s) }
OneToOne == Cardinality(Range_(F)) = Len(F)
AsManyAsColumns == Len(F) = FoldLeft(LAMBDA n, x : n + Width(x), 0, schema)
Partition == /\ UNION { Range_(IndicesOf(schema, v)) : v \in Vars(schema) } = 0..(Len(F) - 1)
             /\ \A u, v \in Vars(schema) : u # v => Range_(IndicesOf(schema, u)) \cap Range_(IndicesOf(schema, v)) = {}
Neighbours == \A v \in Vars(schema) : LET I == IndicesOf(schema, v) IN \A k \in 1..(Len(I) - 1) : I[k + 1] = I[k] + 1
NamedInOrder == \A v \in Vars(schema) : LET I == IndicesOf(schema, v) IN
  \A k \in 1..Len(I) : F[I[k] + 1] = NamesOf(schema, v)[k]
ByType == \A t \in Types : \A v \in Vars(schema) : (\E k \in 1..Len(OfType(schema, t)) : OfType(schema, t)[k] = v) <=> TypeOf(schema, v) = t
(* Adding a variable never changes the names of the features of others.     *)
NamesStay == [][\A v \in Vars(schema) : NamesOf(schema', v) = NamesOf(schema, v)]_vars
(* Types of the same kind keep their order.                                 *)
OrderKept == [][\A t \in Types : SubSeq(OfType(schema', t), 1, Len(OfType(schema, t))) = OfType(schema, t)]_vars
CompletionKeeps == \A D \in Kinds :
  LET nodes == [k \in 1..Size |-> k - 1]
      given == [k \in 1..Len(schema) |-> [v |-> schema[k].v, t |-> schema[k].type, c |-> IF schema[k].type = "categorical" THEN schema[k].card ELSE -1]]
      done == Completed(nodes, given, [t |-> D[1], c |-> IF D[1] = "categorical" THEN D[2] ELSE -1])
  IN  /\ Len(done) = Size /\ \A k \in 1..Len(schema) : done[k] = given[k]
      /\ \A k \in (Len(schema) + 1)..Size : done[k].t = D[1]
EmitSchema == Emit => PrintT("GEN " \o ToJson([schema |-> schema]))
===============================================================================
