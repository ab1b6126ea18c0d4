------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* The inference engine as a state machine.  A state is a function do that *)
(* gives every variable the intervention in force: [d |-> 0, w |-> <<>>]   *)
(* for none, else integer weights w over the values that add up to d.      *)
(***************************************************************************)
EXTENDS Prob

NoDo == [d |-> 0, w |-> << >>]
NoIntervention(net) == [v \in 1..net.n |-> NoDo]
Intervened(do, v) == do[v].d > 0

(* Do-calculus: an intervened variable loses its parents and gets the given  *)
(* distribution; every other table stays as it is.                           *)
Mutilated(net, do) ==
  [n |-> net.n, dom |-> net.dom,
   pa |-> [v \in 1..net.n |-> IF Intervened(do, v) THEN << >> ELSE net.pa[v]],
   D  |-> [v \in 1..net.n |-> IF Intervened(do, v) THEN do[v].d ELSE net.D[v]],
   w  |-> [v \in 1..net.n |-> IF Intervened(do, v) THEN << do[v].w >> ELSE net.w[v]]]

(* v influences another variable at present. *)
Influences(net, do, v) ==
  \E u \in 1..net.n : ~Intervened(do, u) /\ \E i \in 1..Len(net.pa[u]) : net.pa[u][i] = v

(* A request names a variable (0: none of the network), values (0: none of   *)
(* the variable) and for each an integer weight over d.                      *)
ToDo(net, r) ==
  IF r.kind = "state"
  THEN [d |-> 1, w |-> [k \in 1..net.dom[r.v] |-> IF k = r.states[1] THEN 1 ELSE 0]]
  ELSE [d |-> r.d, w |-> [k \in 1..net.dom[r.v] |->
                            r.w[CHOOSE i \in 1..Len(r.states) : r.states[i] = k]]]

ValidDist(net, r) ==
  /\ { r.states[i] : i \in 1..Len(r.states) } =
       (IF r.kind = "state" THEN { r.states[1] } ELSE 1..net.dom[r.v])
  /\ \A i \in 1..Len(r.states) : r.states[i] # 0
  /\ Len(r.w) = Len(r.states)
  /\ \A i \in 1..Len(r.w) : r.w[i] >= 0 /\ r.w[i] <= r.d
  /\ FoldLeft(LAMBDA a, b : a + b, 0, r.w) = r.d

Accepts(net, do, r) == r.v \in 1..net.n /\ Influences(net, do, r.v) /\ ValidDist(net, r)

After(net, do, r) == IF Accepts(net, do, r) THEN [do EXCEPT ![r.v] = ToDo(net, r)] ELSE do
AfterReset(do, v) == [do EXCEPT ![v] = NoDo]
=============================================================================
