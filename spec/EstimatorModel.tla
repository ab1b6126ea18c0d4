---------------------------- MODULE EstimatorModel ----------------------------
(***************************************************************************)
(* The life of two estimators with the same settings (C35): before a fit   *)
(* they answer nothing, a fit makes them forget all earlier data, and two  *)
(* that were last fitted to the same data give the same answers.  A fit    *)
(* that is refused leaves an estimator that nothing is promised of until   *)
(* its next fit.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Emit
VARIABLES fit, hist, answers
vars == << fit, hist, answers >>
Ests == {1, 2}
Sets == {1, 2}
Init == fit = [k \in Ests |-> 0] /\ hist = << >> /\ answers = {}
Log(op) == hist' = Append(hist, op)
Next == /\ Len(hist) < Depth
        /\ \E k \in Ests :
             \/ \E d \in Sets : fit' = [fit EXCEPT ![k] = d] /\ Log(<< "fit", k, d >>) /\ UNCHANGED answers
             \/ fit' = [fit EXCEPT ![k] = -1] /\ Log(<< "badfit", k, 1 >>) /\ UNCHANGED answers
             \/ fit[k] # -1 /\ answers' = answers \cup { << fit[k], k >> } /\ Log(<< "ask", k, 0 >>) /\ UNCHANGED fit
Spec == Init /\ [][Next]_vars
(* What an estimator answers from is the data of its latest fit in the history. *)
Latest(k) == LET s == { n \in 1..Len(hist) : hist[n][2] = k /\ hist[n][1] \in {"fit", "badfit"} }
             IN  IF s = {} THEN 0 ELSE LET n == CHOOSE n \in s : \A m \in s : m <= n IN IF hist[n][1] = "fit" THEN hist[n][3] ELSE -1
AnswersFromLatest == \A k \in Ests : fit[k] = Latest(k)
NoAnswerAfterRefusal == \A a \in answers : a[1] # -1
OthersKept == [][ \E k \in Ests : \A j \in Ests \ {k} : fit'[j] = fit[j] ]_vars
EmitHist == (Emit /\ Len(hist) = Depth /\ hist[Depth][1] = "ask") => PrintT("GEN " \o ToJson(hist))
=============================================================================
