----------------------------- MODULE WindowsModel -----------------------------
(***************************************************************************)
(* The transformer as a machine that reads the rows of its frames one by   *)
(* one and remembers how long the unbroken past is; a new frame forgets    *)
(* it.  Checked against the definition in Windows for every pair of        *)
(* frames over a few points of time and every p; the inputs are emitted    *)
(* for replay (C22).                                                       *)
(***************************************************************************)
EXTENDS Windows, Json

CONSTANTS Span1, Span2, MaxP, Emit
VARIABLES frames, p, f, k, run, made
vars == << frames, p, f, k, run, made >>

InOrder(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Frame(S, o) == LET t == InOrder(S) IN
  [kind |-> "frame", cols |-> << 0, 1 >>, types |-> "ff", text |-> FALSE, intidx |-> TRUE, idx |-> t,
   rows |-> [j \in 1..Len(t) |-> << 10 * t[j] + o, 50 - 7 * t[j] - o >>]]
Init == /\ p \in 1..MaxP
        /\ \E A \in SUBSET Span1, B \in SUBSET Span2 : frames = << Frame(A, 1), Frame(B, 3) >>
        /\ f = 1 /\ k = 1 /\ run = 0 /\ made = << >>
Read == /\ f <= 2 /\ k <= Len(frames[f].idx)
        /\ LET long == IF k > 1 /\ frames[f].idx[k] = frames[f].idx[k - 1] + 1 THEN run + 1 ELSE 0
           IN  /\ run' = long
               /\ made' = IF long >= p THEN Append(made, LagsOf(frames[f], k, << 0, 1 >>, 0, p)) ELSE made
        /\ k' = k + 1 /\ UNCHANGED << frames, p, f >>
Turn == /\ f <= 2 /\ k > Len(frames[f].idx) /\ f' = f + 1 /\ k' = 1 /\ run' = 0 /\ UNCHANGED << frames, p, made >>
Spec == Init /\ [][Read \/ Turn]_vars

AsDefined == f = 3 => made = Transformed(frames, << 0, 1 >>, p)
(* A row only ever mentions one frame (its offset), and times in sequence.  *)
Unmixed == \A m \in 1..Len(made) : \A l \in 1..p :
   /\ made[m][2 * l + 1] = made[m][1] - 10 * l
   /\ made[m][2 * l + 2] = made[m][2] + 7 * l
NoMore == f = 3 => Len(made) = Cardinality({ << g, t >> \in (1..2) \X (Span1 \cup Span2) :
   \A l \in 0..p : \E j \in 1..Len(frames[g].idx) : frames[g].idx[j] = t - l })
EmitInput == (Emit /\ f = 3) => PrintT("GEN " \o ToJson([p |-> p, idx |-> << frames[1].idx, frames[2].idx >>]))
===============================================================================
