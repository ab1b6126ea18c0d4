-------------------------- MODULE TracePresentation --------------------------
(* C05: all presentations of one network give the same answers.              *)
(* case.ev: the answers of several presentations (field pres), the first     *)
(* answer to each evidence is the reference for the later ones.              *)
EXTENDS TraceBase, Integers

TSt0(case) == {}

Near(a, b) == a - b <= 10 /\ b - a <= 10
SameAnswer(p, q) ==
  /\ Len(p) = Len(q)
  /\ \A v \in 1..Len(p) : Len(p[v]) = Len(q[v]) /\ \A k \in 1..Len(p[v]) : Near(p[v][k], q[v][k])

TJudge(case, s, e) ==
  CASE \E m \in s : m.e = e.e /\ m.out # e.out -> "presentation-makes-it-" \o e.out
    [] \E m \in s : m.e = e.e /\ ~SameAnswer(m.p, e.p) -> "presentation-changes-the-answer"
    [] OTHER -> "ok"

TStNext(case, s, e) ==
  IF \E m \in s : m.e = e.e THEN s ELSE s \cup {[e |-> e.e, out |-> e.out, p |-> e.p]}
=============================================================================
