----------------------------- MODULE EngineModel -----------------------------
(***************************************************************************)
(* All histories of interventions, refused interventions and resets, up to *)
(* the length Depth, over small networks with two values per variable.     *)
(* The laws of interventions are checked in every state, and the histories *)
(* are emitted for replay against the code (C16).                          *)
(***************************************************************************)
EXTENDS Engine, Json

CONSTANTS Depth, Emit

(* structure, and tables over denominator 4 that make every edge matter *)
Structures == { << <<>>, <<1>>, <<2>> >>, << <<>>, <<>>, <<1, 2>> >>,
                << <<>>, <<1>>, <<1>> >>, << <<>>, <<1>>, <<1, 2>> >> }
RowsOf(n) == CASE n = 0 -> << <<1, 3>> >>
               [] n = 1 -> << <<1, 3>>, <<4, 0>> >>
               [] n = 2 -> << <<1, 3>>, <<3, 1>>, <<2, 2>>, <<0, 4>> >>
NetOf(pa) == [n |-> 3, dom |-> <<2, 2, 2>>, pa |-> pa, D |-> <<4, 4, 4>>,
              w |-> [v \in 1..3 |-> RowsOf(Len(pa[v]))]]

VARIABLES net, do, hist
vars == <<net, do, hist>>

Init == /\ net \in { NetOf(pa) : pa \in Structures }
        /\ do = NoIntervention(net)
        /\ hist = << >>

Requests(v) == { [v |-> v, kind |-> "state", states |-> <<k>>, w |-> <<1>>, d |-> 1] : k \in 0..2 }
               \cup { [v |-> v, kind |-> "dist", states |-> <<2, 1>>, w |-> w, d |-> 2] : w \in { <<1, 1>>, <<2, 1>>, <<0, 2>> } }

Do(r) == /\ do' = After(net, do, r)
         /\ hist' = Append(hist, << IF ValidDist(net, r) THEN "do" ELSE "bad", r.v >>)
Reset(v) == /\ do' = AfterReset(do, v)
            /\ hist' = Append(hist, << "reset", v >>)
Query == /\ UNCHANGED do
         /\ hist' = Append(hist, << "query", 0 >>)

Next == /\ Len(hist) < Depth
        /\ UNCHANGED net
        /\ \/ \E v \in 1..3 : \/ \E r \in Requests(v) : Do(r)
                              \/ Reset(v)
           \/ Query
Spec == Init /\ [][Next]_vars

(* ------------------------------- the laws ------------------------------ *)
M == Mutilated(net, do)
Marginals(N, ev) == LET S == Support(N, ev) IN [v \in 1..3 |-> [k \in 1..2 |-> << MarginalW(S, v, k), SumW(S) >>]]
Same(a, b) == a[1] * b[2] = b[1] * a[2]

WellFormed == IsNet(M)
RECURSIVE AncestorsOf(_, _)
AncestorsOf(N, V) == LET W == V \cup UNION { { N.pa[v][i] : i \in 1..Len(N.pa[v]) } : v \in V }
                     IN  IF W = V THEN V ELSE AncestorsOf(N, W)
(* Interventions only matter for the descendants of what is intervened on. *)
OnlyDescendants ==
  LET a == Marginals(net, NoEvidence(net))
      b == Marginals(M, NoEvidence(net))
  IN  \A v \in 1..3 :
        (\A u \in AncestorsOf(net, {v}) : ~Intervened(do, u)) => \A k \in 1..2 : Same(a[v][k], b[v][k])
(* The intervened variable has the distribution that was asked for. *)
AsAsked == LET b == Marginals(M, NoEvidence(net))
           IN  \A v \in 1..3 : Intervened(do, v) => \A k \in 1..2 : Same(b[v][k], << do[v].w[k], do[v].d >>)
(* Without parents, seeing is doing. *)
SeeingIsDoing ==
  \A v \in 1..3 : \A k \in 1..2 :
    (/\ Len(net.pa[v]) = 0 /\ \A u \in 1..3 : u # v => ~Intervened(do, u)
     /\ do[v] = [d |-> 1, w |-> [j \in 1..2 |-> IF j = k THEN 1 ELSE 0]])
    => LET a == Marginals(net, [u \in 1..3 |-> IF u = v THEN k ELSE 0])
           b == Marginals(M, NoEvidence(net))
       IN  a[1][1][2] > 0 => \A u \in 1..3 : \A j \in 1..2 : Same(a[u][j], b[u][j])
NothingInForce == (\A v \in 1..3 : ~Intervened(do, v)) => M = net

(* Refused requests change nothing; accepted ones change one variable. *)
OneAtATime == [][\A u, v \in 1..3 : (do'[u] # do[u] /\ do'[v] # do[v]) => u = v]_vars

DoView == <<net, do>>
EmitHist == (Emit /\ Len(hist) = Depth) => PrintT("GEN " \o ToJson([pa |-> net.pa, h |-> hist]))
=============================================================================
