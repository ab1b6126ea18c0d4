----------------------------- MODULE SamplerModel -----------------------------
(***************************************************************************)
(* The design behind C13 and C14.  A sample starts as the evidence; one    *)
(* variable after the other, in any order, gets the first value at which   *)
(* the cumulated weights, given everything fixed so far, exceed a ticket   *)
(* r in 0..total-1.  Checked for every order and every ticket: what is     *)
(* sampled stays possible, nothing of weight zero is picked, and the       *)
(* tickets that lead to an assignment are in proportion to its             *)
(* probability (the chain rule), so that the order does not matter.        *)
(* Mode "prior" forgets the values fixed so far and keeps only the         *)
(* evidence: the mistake that C14 is about, which bin/selftest expects to  *)
(* be refuted.                                                             *)
(***************************************************************************)
EXTENDS Prob

CONSTANTS Mode, Domains, Seeds
VARIABLES net, ev, x, num, den
vars == << net, ev, x, num, den >>

Structures == { << <<>>, <<1>>, <<2>> >>, << <<>>, <<>>, <<1, 2>> >>, << <<>>, <<1>>, <<1>> >>,
                << <<>>, <<1>>, <<1, 2>> >>, << <<>>, <<>>, <<2>> >>, << <<>>, <<>>, <<>> >> }
RowOf(d, s) == IF d = 2 THEN << <<1, 3>>, <<4, 0>>, <<2, 2>>, <<0, 4>>, <<3, 1>> >>[(s % 5) + 1]
               ELSE << <<1, 3, 0>>, <<2, 1, 1>>, <<0, 0, 4>>, <<0, 2, 2>>, <<3, 0, 1>> >>[(s % 5) + 1]
NetOf(pa, dom, s) ==
  [n |-> 3, dom |-> dom, pa |-> pa, D |-> <<4, 4, 4>>,
   w |-> [v \in 1..3 |-> [r \in 1..FoldLeft(LAMBDA a, p : a * dom[p], 1, pa[v]) |-> RowOf(dom[v], v + r + s)]]]

SmallDomains == { <<2, 2, 2>> }
LargeDomains == { <<2, 2, 2>>, <<3, 2, 2>>, <<2, 3, 3>> }
W(y) == SumW(Support(net, y))
Init == /\ \E pa \in Structures : \E dom \in Domains : \E s \in Seeds : net = NetOf(pa, dom, s)
        /\ ev \in { y \in [1..3 -> 0..3] : \A v \in 1..3 : y[v] <= net.dom[v] }
        /\ W(ev) > 0
        /\ x = ev /\ num = 1 /\ den = 1

Given == IF Mode = "prior" THEN ev ELSE x
WeightOfValue(v, k) == W([Given EXCEPT ![v] = k])
Masses(v) == TLCEval([k \in 1..net.dom[v] |-> WeightOfValue(v, k)])
UpTo(m, k) == FoldLeft(LAMBDA a, j : a + m[j], 0, [j \in 1..k |-> j])
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Pick(m, r) == CHOOSE k \in 1..Len(m) : UpTo(m, k) > r /\ \A j \in 1..(k - 1) : UpTo(m, j) <= r
Draw == \E v \in 1..3 :
  /\ x[v] = 0
  /\ LET m == Masses(v) total == UpTo(m, Len(m)) IN
     \E r \in 0..(total - 1) :
       LET k == Pick(m, r)
           a == num * m[k]
           b == den * total
       IN  /\ x' = [x EXCEPT ![v] = k]
           /\ num' = a \div Gcd(a, b) /\ den' = b \div Gcd(a, b)
  /\ UNCHANGED << net, ev >>
Spec == Init /\ [][Draw]_vars

StaysPossible == W(x) > 0
EvidenceKept == \A v \in 1..3 : ev[v] # 0 => x[v] = ev[v]
(* num/den is the share of the tickets that lead here along this order.     *)
ChainRule == num * W(ev) = den * W(x)
(* Each value of positive weight is some ticket's, no other value is.       *)
TicketsFit == \A v \in 1..3 : x[v] = 0 =>
  LET m == Masses(v)
      P == TLCEval([r \in 0..(UpTo(m, Len(m)) - 1) |-> Pick(m, r)])
  IN  DOMAIN P # {} /\ \A k \in 1..Len(m) : Cardinality({ r \in DOMAIN P : P[r] = k }) = m[k]
===============================================================================
