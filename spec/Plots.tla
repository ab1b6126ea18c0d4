--------------------------------- MODULE Plots ---------------------------------
(***************************************************************************)
(* Styles are functions from attributes to values, given as sequences of   *)
(* pairs.  Later styles override earlier ones.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Style(s) == [ k \in { s[i][1] : i \in 1..Len(s) } |-> s[CHOOSE i \in 1..Len(s) : s[i][1] = k][2] ]
Over(f, g) == [ k \in DOMAIN f \cup DOMAIN g |-> IF k \in DOMAIN g THEN g[k] ELSE f[k] ]
Layers(ss) == FoldLeft(LAMBDA acc, s : Over(acc, Style(s)), Style(<< >>), ss)

(* The k-th of the colours between two colours, k = 0..n: on the straight    *)
(* line (whole numbers, either neighbour), the ends exactly.                 *)
Between(f, t, k, n, c) == LET d == c * n - (f * n + (t - f) * k) IN d < n /\ -d < n
Gradient(from, to, n, cs) ==
  /\ Len(cs) = n + 1
  /\ \A k \in 0..n : Len(cs[k + 1]) = 4 /\ \A j \in 1..4 : Between(from[j], to[j], k, n, cs[k + 1][j])
  /\ cs[1] = from /\ cs[n + 1] = to
=============================================================================
