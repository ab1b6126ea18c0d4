------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Checking recorded histories of the implementation.                      *)
(*                                                                         *)
(* The file named by the environment variable TRACE holds an array of      *)
(* cases; every case has fields of its own (the network, the structure,    *)
(* ...) and a sequence ev of events, one for each public call that was     *)
(* made, with its arguments and what was observed.  A trace module says    *)
(* what the abstract state is before the first event (TSt0), which verdict *)
(* an event gets in a state (TJudge: "ok" or the name of the clause that   *)
(* is broken), and the abstract state after it (TStNext).  Each step       *)
(* consumes one event; a rejected event is printed and ends its case.      *)
(*                                                                         *)
(* Judging is total: it yields a verdict for every event, so that a wrong  *)
(* implementation cannot make the model checker itself fail.  The harness  *)
(* checks that the number of states is the number of events that had to be *)
(* judged, so that no event goes by unjudged.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS St0(_), Judge(_, _, _), StNext(_, _, _)

VARIABLES caseNo,  \* the case
          pos,     \* position of the next event of the case
          abs,     \* abstract state
          good     \* no event has been rejected

Cases == JsonDeserialize(IOEnv.TRACE)

Init == /\ caseNo \in 1..Len(Cases)
        /\ pos = 1
        /\ abs = St0(Cases[caseNo])
        /\ good = TRUE

Step == /\ good
        /\ pos <= Len(Cases[caseNo].ev)
        /\ LET e == Cases[caseNo].ev[pos]
               v == Judge(Cases[caseNo], abs, e)
           IN  IF v = "ok"
               THEN /\ pos' = pos + 1
                    /\ abs' = StNext(Cases[caseNo], abs, e)
                    /\ UNCHANGED <<caseNo, good>>
               ELSE /\ PrintT("REJECT " \o ToString(caseNo) \o " " \o ToString(pos) \o " " \o v)
                    /\ good' = FALSE
                    /\ UNCHANGED <<caseNo, pos, abs>>

Spec == Init /\ [][Step]_<<caseNo, pos, abs, good>>
=============================================================================
