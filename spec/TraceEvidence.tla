---------------------------- MODULE TraceEvidence ----------------------------
(* C03: evidence is validated before it is used.                             *)
(* event: op = "query" | "sample" | "validate"; items = <<<<var, value>>..>> *)
(* in the order given, 0 for a name that is no variable resp. a value that   *)
(* is not in the domain; out, exc = what came back                           *)
EXTENDS TraceBase

TSt0(case) == 0

Offending(e) == { i \in 1..Len(e.items) : e.items[i][1] = 0 \/ e.items[i][2] = 0 }
BadNames(e)  == { i \in 1..Len(e.items) : e.items[i][1] = 0 }
Allowed(e) == (IF BadNames(e) # {} THEN {"VariableNotInGraphError"} ELSE {})
              \cup (IF Offending(e) \ BadNames(e) # {} THEN {"VariableValueNotInDomainError"} ELSE {})

TJudge(case, s, e) ==
  CASE Offending(e) = {} /\ e.out # "ok" -> "valid-evidence-" \o e.out
    [] Offending(e) # {} /\ e.out = "ok" -> "invalid-evidence-accepted"
    [] Offending(e) # {} /\ e.out # "raise" -> "invalid-evidence-" \o e.out
    [] Offending(e) # {} /\ e.exc \notin Allowed(e) -> "wrong-exception"
    [] OTHER -> "ok"

TStNext(case, s, e) == s
=============================================================================
