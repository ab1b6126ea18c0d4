--------------------------- MODULE TraceCalibrate ---------------------------
(* C12: propagation calibrates the tree from any starting cluster.           *)
(* case: dom, cliques, seps (variables in key order)                         *)
(* event "potentials": num[c], den[c] = initial cluster potentials as        *)
(* integers over a common denominator per cluster                            *)
(* event "propagate": tc[c], ts[s] = potentials afterwards, <<num, den>>     *)
(* event "marginals": m[v][k] = marginals read from the tree                 *)
(* The state keeps what the initial potentials imply: the sum of their       *)
(* product over everything outside each cluster, separator and variable.     *)
EXTENDS TraceBase, Prob, Graphs

Index(vars, dom, x) == FoldLeft(LAMBDA acc, v : acc * dom[v] + (x[v] - 1), 0, vars) + 1
Size(vars, dom) == FoldLeft(LAMBDA acc, v : acc * dom[v], 1, vars)

RECURSIVE AllUpTo(_, _)
AllUpTo(dom, v) == IF v = 0 THEN { << >> }
                   ELSE { Append(x, k) : x \in AllUpTo(dom, v - 1), k \in 1..dom[v] }

Product(case, e) ==
  LET w(x) == FoldLeft(LAMBDA acc, c : IF acc = 0 THEN 0 ELSE acc * e.num[c][Index(case.cliques[c], case.dom, x)],
                       1, [c \in 1..Len(case.cliques) |-> c])
  IN  { s \in { [x |-> x, w |-> w(x)] : x \in AllUpTo(case.dom, Len(case.dom)) } : s.w > 0 }

Project(S, vars, dom) ==
  FoldSet(LAMBDA s, f : [f EXCEPT ![Index(vars, dom, s.x)] = @ + s.w], [i \in 1..Size(vars, dom) |-> 0], S)

TSt0(case) == << >>

Implied(case, e) ==
  LET S == TLCEval(Product(case, e))
  IN  [ c |-> [ i \in 1..Len(case.cliques) |-> TLCEval(Project(S, case.cliques[i], case.dom)) ],
        s |-> [ j \in 1..Len(case.seps) |-> TLCEval(Project(S, case.seps[j], case.dom)) ],
        m |-> [ v \in 1..Len(case.dom) |-> TLCEval(Project(S, <<v>>, case.dom)) ],
        d |-> ProductSeq(e.den) ]

Matches(got, want, d) ==
  /\ Len(got) = Len(want)
  /\ \A i \in 1..Len(want) : SameRatio(got[i][1], got[i][2], want[i], d)

TJudge(case, s, e) ==
  CASE e.out # "ok" -> e.op \o "-" \o e.out
    [] e.op = "propagate" /\ \E i \in 1..Len(case.cliques) : ~Matches(e.tc[i], s.c[i], s.d) -> "cluster-not-calibrated"
    [] e.op = "propagate" /\ \E j \in 1..Len(case.seps) : ~Matches(e.ts[j], s.s[j], s.d) -> "separator-not-calibrated"
    [] e.op = "marginals" /\ \E v \in 1..Len(case.dom) : ~Matches(e.m[v], s.m[v], s.d) -> "marginal-does-not-follow"
    [] OTHER -> "ok"

TStNext(case, s, e) == IF e.op = "potentials" THEN TLCEval(Implied(case, e)) ELSE s
=============================================================================
