------------------------------ MODULE ThinModel ------------------------------
(***************************************************************************)
(* Thinning a graph until it is acyclic, step by step, from every weighted *)
(* graph over three nodes; the final graph satisfies the declarative       *)
(* description that recorded calls are judged by, and no graph that is     *)
(* reached in another way does.                                            *)
(***************************************************************************)
EXTENDS StructModel
CONSTANTS W
VARIABLES start, g, done
vars == <<start, g, done>>
N == 1..3
AllPairs == { p \in N \X N : p[1] # p[2] }
GraphsOver == { [nodes |-> N, edges |-> { [u |-> p[1], v |-> p[2], o |-> "learned", w |-> f[p], c |-> None] :
                                          p \in { q \in AllPairs : f[q] # 0 } }] : f \in [AllPairs -> 0..W] }
Init == start \in GraphsOver /\ g = start /\ done = FALSE
Least == { e \in g.edges : \A f \in g.edges : Mag(e.w) <= Mag(f.w) }
Cut == /\ ~done /\ ~IsDag(g)
          /\ \E e \in Least : g' = [g EXCEPT !.edges = @ \ {e}]
          /\ UNCHANGED <<start, done>>
Stop == ~done /\ IsDag(g) /\ done' = TRUE /\ UNCHANGED <<start, g>>
Spec == Init /\ [][Cut \/ Stop]_vars /\ WF_vars(Cut \/ Stop)
Described == done => ThinnedTo(start, g)
DagUntouched == (done /\ IsDag(start)) => g = start
Terminates == <>done
(* Thresholds: monotone, idempotent, and what thinning removed is a threshold's worth. *)
Laws == \A s, t \in 0..(2 * W + 1) :
          /\ Threshold(Threshold(start, s), s) = Threshold(start, s)
          /\ s <= t => Threshold(start, t).edges \subseteq Threshold(start, s).edges
=============================================================================
