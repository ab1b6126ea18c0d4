------------------------------- MODULE RocModel -------------------------------
(***************************************************************************)
(* The area under the receiver operating characteristic as a machine that  *)
(* lowers a threshold from above all scores to below all of them and adds  *)
(* up trapezoids.  Checked for every small assignment of scores and        *)
(* labels: the area is the probability that a positive instance scores     *)
(* above a negative one, ties counting half (C30).                         *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS N, Top
VARIABLES score, label, t, fp, tp, area2
vars == << score, label, t, fp, tp, area2 >>
I == 1..N
P == { i \in I : label[i] }
Q == I \ P
Init == /\ score \in [I -> 0..Top] /\ label \in [I -> BOOLEAN]
        /\ P # {} /\ Q # {}
        /\ t = Top + 1 /\ fp = 0 /\ tp = 0 /\ area2 = 0
Lower == /\ t > 0
         /\ t' = t - 1
         /\ fp' = Cardinality({ i \in Q : score[i] >= t - 1 })
         /\ tp' = Cardinality({ i \in P : score[i] >= t - 1 })
         /\ area2' = area2 + (fp' - fp) * (tp' + tp)
         /\ UNCHANGED << score, label >>
Spec == Init /\ [][Lower]_vars
Wins == Cardinality({ x \in P \X Q : score[x[1]] > score[x[2]] })
Ties == Cardinality({ x \in P \X Q : score[x[1]] = score[x[2]] })
IsRank == t = 0 => area2 = 2 * Wins + Ties
Ends == t = 0 => fp = Cardinality(Q) /\ tp = Cardinality(P)
Climbs == [][fp' >= fp /\ tp' >= tp]_vars
(* Swapping the labels mirrors the area.                                    *)
Bounded == area2 >= 0 /\ area2 <= 2 * Cardinality(P) * Cardinality(Q)
===============================================================================
