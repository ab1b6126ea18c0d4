----------------------------- MODULE TraceTable -----------------------------
(* C07: conditional tables are encoded entry by entry.                       *)
(* case: rows = <<given, values>> as presented, given = <<<<parent, value>>  *)
(* ..>>, values = <<<<value, prob>>..>>; self = the variable; rank = the     *)
(* alphabetical rank of every variable name; dom = number of values          *)
(* event "args": names of the arguments as variables                         *)
(* event "call": a = value given for every argument, got = what came back    *)
(* event "domain": values of the domain                                      *)
EXTENDS TraceBase, Graphs

TSt0(case) == << >>     \* the argument names, once seen

Parents(case) == { g[1] : g \in Range_(case.rows[1][1]) }

(* The entry of the table for the values x[var] of all variables involved. *)
Entry(case, x) ==
  LET r == CHOOSE r \in Range_(case.rows) : \A g \in Range_(r[1]) : x[g[1]] = g[2]
      q == CHOOSE q \in Range_(r[2]) : q[1] = x[case.self]
  IN  q[2]

TJudge(case, s, e) ==
  CASE e.out # "ok" -> e.op \o "-" \o e.out
    [] e.op = "args" /\ (Range_(e.names) # Parents(case) \cup {case.self} \/ ~IsInjective_(e.names)) -> "wrong-arguments"
    [] e.op = "args" /\ e.names[Len(e.names)] # case.self -> "variable-is-not-the-last-argument"
    [] e.op = "args" /\ \E i, j \in 1..(Len(e.names) - 1) : i < j /\ case.rank[e.names[i]] > case.rank[e.names[j]] ->
         "parents-not-in-alphabetical-order"
    [] e.op = "call" /\ e.got # Entry(case, [ v \in Range_(s) |-> e.a[CHOOSE i \in 1..Len(s) : s[i] = v] ]) -> "wrong-entry"
    [] e.op = "domain" /\ Range_(e.values) # 1..case.dom -> "wrong-domain"
    [] OTHER -> "ok"

TStNext(case, s, e) == IF e.op = "args" THEN e.names ELSE s
=============================================================================
