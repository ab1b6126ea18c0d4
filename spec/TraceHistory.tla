---------------------------- MODULE TraceHistory ----------------------------
(* C04: an answer depends only on the network and the evidence.              *)
(* The state remembers the answer that each (network, evidence) got first;   *)
(* every later answer to it, whatever happened in between and also from a    *)
(* freshly built network, has to be the same.                                *)
(* event: op, net, e = evidence, out, p = answer in units of 10^-8,          *)
(* args = "same" | "changed" : the objects the caller passed in              *)
EXTENDS TraceBase, Integers

TSt0(case) == {}

Near(a, b) == a - b <= 10 /\ b - a <= 10
SameAnswer(p, q) ==
  /\ Len(p) = Len(q)
  /\ \A v \in 1..Len(p) : Len(p[v]) = Len(q[v]) /\ \A k \in 1..Len(p[v]) : Near(p[v][k], q[v][k])

Answers(e) == e.op \in {"query", "fresh"}

TJudge(case, s, e) ==
  CASE e.args # "same" -> "argument-changed"
    [] Answers(e) /\ \E m \in s : m.net = e.net /\ m.e = e.e /\ m.out # e.out -> "answer-became-" \o e.out
    [] Answers(e) /\ \E m \in s : m.net = e.net /\ m.e = e.e /\ ~SameAnswer(m.p, e.p) -> "answer-changed"
    [] OTHER -> "ok"

TStNext(case, s, e) ==
  IF Answers(e) /\ ~\E m \in s : m.net = e.net /\ m.e = e.e
  THEN s \cup {[net |-> e.net, e |-> e.e, out |-> e.out, p |-> e.p]}
  ELSE s
=============================================================================
