--------------------------- MODULE TracePotential ---------------------------
(* C11: every table enters the join tree exactly once.                       *)
(* case: net, cliques = variables of every cluster in key order              *)
(* event "assign": where[v] = the clusters that were given the factor of v   *)
(* event "init": e = evidence, q[c] = <<num, den>> per entry of cluster c,   *)
(* neutral = every separator entry is 1 and every separator is complete      *)
EXTENDS TraceBase, Prob, Graphs

TSt0(case) == Assert(IsNet(case.net), <<"bad net", case.id>>)

Index(vars, dom, x) == FoldLeft(LAMBDA acc, v : acc * dom[v] + (x[v] - 1), 0, vars) + 1

RECURSIVE AllUpTo(_, _)
AllUpTo(dom, v) == IF v = 0 THEN { << >> }
                   ELSE { Append(x, k) : x \in AllUpTo(dom, v - 1), k \in 1..dom[v] }
All(dom) == AllUpTo(dom, Len(dom))

(* Multiplication that stops growing once the result is beyond any legitimate one. *)
Big == 46340
Sat(a, b) == IF a > Big \/ b > Big THEN Big + 1 ELSE a * b

JointW(net, ev, x) ==
  IF \E v \in 1..net.n : ~Agrees(ev, v, x[v]) THEN 0
  ELSE FoldLeft(LAMBDA acc, v : IF acc = 0 THEN 0 ELSE acc * Weight(net, v, x, x[v]), 1, [v \in 1..net.n |-> v])

TreeRatio(case, e, x) ==
  FoldLeft(LAMBDA acc, c : LET r == e.q[c][Index(case.cliques[c], case.net.dom, x)]
                           IN  << Sat(acc[1], r[1]), Sat(acc[2], r[2]) >>,
           << 1, 1 >>, [c \in 1..Len(case.cliques) |-> c])

TJudge(case, s, e) ==
  LET net == case.net
      V == 1..net.n
      z == ProductSeq(net.D)
  IN  CASE e.out # "ok" -> e.op \o "-" \o e.out
        [] e.op = "assign" /\ \E v \in V : e.where[v] = << >> -> "factor-in-no-cluster"
        [] e.op = "assign" /\ \E v \in V : Len(e.where[v]) > 1 -> "factor-in-several-clusters"
        [] e.op = "assign" /\ \E v \in V : ~(({v} \cup Range_(net.pa[v])) \subseteq Range_(case.cliques[e.where[v][1]])) ->
             "cluster-does-not-cover-the-factor"
        [] e.op = "init" /\ ~e.neutral -> "separator-not-neutral"
        [] e.op = "init" /\ \E c \in 1..Len(e.q) : \E i \in 1..Len(e.q[c]) : e.q[c][i][2] = 0 \/ e.q[c][i][1] < 0 ->
             "potential-is-no-product-of-tables"
        [] e.op = "init" /\ \E x \in All(net.dom) :
             LET r == TreeRatio(case, e, x)
                 w == JointW(net, e.e, x)
             IN  r[1] > Big \/ r[2] > Big \/ r[1] * z # w * r[2] -> "product-of-potentials-is-not-the-joint"
        [] OTHER -> "ok"

TStNext(case, s, e) == s
=============================================================================
