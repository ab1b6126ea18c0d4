----------------------------- MODULE JunctionTree -----------------------------
(***************************************************************************)
(* The design behind C08-C12 and C01, as a state machine: from a directed  *)
(* network over binary variables to calibrated cluster potentials.         *)
(*                                                                         *)
(*   eliminate  vertices of the moral graph are eliminated in any order;   *)
(*              a cluster is kept if no earlier one contains it            *)
(*   join       clusters of different trees are linked, any pair with the  *)
(*              largest intersection first                                 *)
(*   assign     every table goes to any one cluster that has its variables *)
(*   pass       messages along the links, in any order in which a cluster  *)
(*              answers a neighbour only after hearing all others          *)
(*   again      the same once more, on the calibrated tree                 *)
(*                                                                         *)
(* The code takes one particular path (least fill-in, one root, collect    *)
(* and distribute); what is checked here holds for every path, so that a   *)
(* maintainer may change priorities, ties, roots and schedules.            *)
(* Tables are whole numbers with zeros, not normalised; ev observes at     *)
(* most one variable.                                                      *)
(***************************************************************************)
EXTENDS Graphs

CONSTANTS N, Seeds, Observe
VARIABLES pa, seed, ev, phase, rest, full, cl, links, home, pot, sep, sent
vars == << pa, seed, ev, phase, rest, full, cl, links, home, pot, sep, sent >>

V == 1..N
Val == {1, 2}
Asg(S) == [S -> Val]
Cut(x, S) == [v \in S |-> x[v]]
Family(v) == pa[v] \cup {v}

Pattern == << 1, 0, 2, 1, 3, 0, 1 >>
Table(v, x) == Pattern[((5 * v + 3 * seed + FoldSet(LAMBDA u, s : s + x[u] * (u + 1), 0, Family(v))) % 7) + 1]
Seen(v, x) == IF ev[1] = v /\ x[v] # ev[2] THEN 0 ELSE 1
Joint(x) == FoldSet(LAMBDA v, w : w * Table(v, x) * Seen(v, x), 1, V)
AddUp(f, S) == FoldSet(LAMBDA x, s : s + f[x], 0, S)
Project(f, C, S) == TLCEval([y \in Asg(S) |-> AddUp(f, { x \in Asg(C) : Cut(x, S) = y })])
Whole == TLCEval([x \in Asg(V) |-> Joint(x)])
Trees == [c \in cl |-> ReachFrom([d \in cl |-> UNION { l \ {d} : l \in { k \in links : d \in k } }], {c}, {c})]
Middle(l) == LET c == CHOOSE c \in l : TRUE IN LET d == CHOOSE d \in l \ {c} : TRUE IN c \cap d
Joined == \A c, d \in cl : d \in Trees[c]

Init ==
  /\ pa \in { p \in [V -> SUBSET V] : \A v \in V : \A u \in p[v] : u < v }
  /\ seed \in Seeds /\ ev \in ({ <<0, 0>> } \cup IF Observe THEN { << v, k >> : v \in {1, N}, k \in {1, 2} } ELSE {})
  /\ phase = "eliminate" /\ rest = Moral(V, pa) /\ full = Moral(V, pa)
  /\ cl = {} /\ links = {} /\ home = << >> /\ pot = << >> /\ sep = << >> /\ sent = {}

DoEliminate == /\ phase = "eliminate" /\ DOMAIN rest # {}
  /\ \E v \in DOMAIN rest :
       LET c == Cluster(rest, v)
       IN  /\ cl' = IF \E d \in cl : c \subseteq d THEN cl ELSE cl \cup {c}
           /\ full' = AddEdges(full, Fill(rest, v))
           /\ rest' = Eliminate(rest, v)
  /\ UNCHANGED << pa, seed, ev, phase, links, home, pot, sep, sent >>
Eliminated == /\ phase = "eliminate" /\ DOMAIN rest = {} /\ phase' = "join"
  /\ UNCHANGED << pa, seed, ev, rest, full, cl, links, home, pot, sep, sent >>

Candidates == { l \in { {c, d} : c, d \in cl } : Cardinality(l) = 2 /\ \A c \in l : \A d \in l \ {c} : d \notin Trees[c] }
DoJoin == /\ phase = "join" /\ ~Joined
  /\ \E l \in Candidates : /\ \A k \in Candidates : Cardinality(Middle(k)) <= Cardinality(Middle(l))
                           /\ links' = links \cup {l}
  /\ UNCHANGED << pa, seed, ev, phase, rest, full, cl, home, pot, sep, sent >>
Product(c, h) == TLCEval([x \in Asg(c) |-> FoldSet(LAMBDA v, w : w * Table(v, x) * Seen(v, x), 1, { v \in V : h[v] = c })])
DoAssign == /\ phase = "join" /\ Joined
  /\ \E h \in [V -> cl] :
       /\ \A v \in V : Family(v) \subseteq h[v]
       /\ home' = h
       /\ pot' = [c \in cl |-> Product(c, h)]
  /\ sep' = [l \in links |-> [y \in Asg(Middle(l)) |-> 1]]
  /\ phase' = "pass"
  /\ UNCHANGED << pa, seed, ev, rest, full, cl, links, sent >>

Divide(a, b) == IF b = 0 THEN 0 ELSE a \div b
Send == /\ phase \in {"pass", "again"}
  /\ \E l \in links : \E c \in l : \E d \in l \ {c} :
       /\ << c, d >> \notin sent
       /\ \A k \in links \ {l} : c \in k => \A b \in k \ {c} : << b, c >> \in sent
       /\ LET new == Project(pot[c], c, Middle(l))
          IN  /\ pot' = [pot EXCEPT ![d] = TLCEval([x \in Asg(d) |-> Divide(pot[d][x] * new[Cut(x, Middle(l))], sep[l][Cut(x, Middle(l))])])]
              /\ sep' = [sep EXCEPT ![l] = new]
       /\ sent' = sent \cup { << c, d >> }
  /\ UNCHANGED << pa, seed, ev, phase, rest, full, cl, links, home >>
Heard == Cardinality(sent) = 2 * Cardinality(links)
Repeat == /\ phase = "pass" /\ Heard /\ phase' = "again" /\ sent' = {}
  /\ UNCHANGED << pa, seed, ev, rest, full, cl, links, home, pot, sep >>
Done == phase = "again" /\ Heard /\ UNCHANGED vars
Next == DoEliminate \/ Eliminated \/ DoJoin \/ DoAssign \/ Send \/ Repeat \/ Done
Spec == Init /\ [][Next]_vars

(* For larger networks: the clusters only. *)
ClustersOnly == phase = "eliminate"

(* ------------------------------ properties ----------------------------- *)
Built == phase # "eliminate"
TriangulationIsChordal == (phase = "join" /\ links = {}) => Chordal(full)
ClustersAreTheCliques == (phase = "join" /\ links = {}) => cl = MaximalCliques(full)
FamiliesCovered == (phase = "join" /\ links = {}) => \A v \in V : \E c \in cl : Family(v) \subseteq c
OnlyNeededEdges == phase = "eliminate" => \A v \in V : \A u \in full[v] : u \in DOMAIN full /\ v \in full[u]
IsForest == \A c \in cl : Cardinality({ l \in links : l \subseteq Trees[c] }) = Cardinality(Trees[c]) - 1
RunningIntersection == (phase = "join" /\ Joined) => \A v \in V :
  LET C == { c \in cl : v \in c } IN Cardinality({ l \in links : l \subseteq C }) = Cardinality(C) - 1
(* The product of the clusters over that of the separators is the joint.    *)
Represents == phase \in {"pass", "again"} => \A x \in Asg(V) :
  FoldSet(LAMBDA c, w : w * pot[c][Cut(x, c)], 1, cl) = Whole[x] * FoldSet(LAMBDA l, w : w * sep[l][Cut(x, Middle(l))], 1, links)
Calibrated == /\ \A c \in cl : pot[c] = Project(Whole, V, c)
              /\ \A l \in links : sep[l] = Project(Whole, V, Middle(l))
CalibratedAtTheEnd == (phase = "pass" /\ Heard) => Calibrated
StaysCalibrated == phase = "again" => Calibrated
===============================================================================
