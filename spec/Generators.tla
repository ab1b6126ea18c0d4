------------------------------ MODULE Generators ------------------------------
(***************************************************************************)
(* Random structures and the data generated from structures.  Weights and  *)
(* real numbers are integers in a unit given with each operator.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

AbsOf(x) == IF x < 0 THEN -x ELSE x
Pairs(E) == { << e[1], e[2] >> : e \in E }

RECURSIVE Fwd(_, _)
Fwd(P, V) == LET W == TLCEval(V \cup { x[2] : x \in { y \in P : y[1] \in V } }) IN IF W = V THEN V ELSE Fwd(P, W)
RECURSIVE Both(_, _)
Both(P, V) == LET W == TLCEval(V \cup { x[2] : x \in { y \in P : y[1] \in V } } \cup { x[1] : x \in { y \in P : y[2] \in V } }) IN IF W = V THEN V ELSE Both(P, W)
AcyclicPairs(P) == \A x \in P : x[1] \notin Fwd(P, {x[2]})

(* A random structure over the nodes N with edges E (<<from, to, weight in   *)
(* millionths>>): type, expected degree (in hundredths), smallest and largest *)
(* absolute weight (in thousandths).                                         *)
LawfulStructure(N, E, n, type, degree, lo, hi) ==
  LET P == Pairs(E)
      q == degree \div 200
      m == CASE degree % 200 < 100 -> q [] degree % 200 > 100 -> q + 1 [] OTHER -> 2 * ((q + 1) \div 2)     \* round(degree / 2), halves to even
  IN  /\ \A e \in E : e[1] \in N /\ e[2] \in N
      /\ Cardinality(P) = Cardinality(E)
      /\ AcyclicPairs(P)
      /\ \A e \in E : AbsOf(e[3]) >= lo * 1000 - 1 /\ AbsOf(e[3]) <= hi * 1000 + 1
      /\ CASE type = "full" -> Cardinality(P) = (n * (n - 1)) \div 2
           [] type = "erdos-renyi" -> /\ degree = 0 => P = {}
                                      /\ degree >= 100 * (n - 1) => Cardinality(P) = (n * (n - 1)) \div 2
           [] type = "barabasi-albert" -> /\ Cardinality(P) <= m * (n - 1)
                                          \* every node joins the ones before it in the same direction
                                          /\ \/ \A v \in N : Cardinality({ x \in P : x[1] = v }) <= m
                                             \/ \A v \in N : Cardinality({ x \in P : x[2] = v }) <= m
                                          /\ m >= 1 => \A v \in N : Both(P, {v}) = N
KnownTypes == {"full", "erdos-renyi", "barabasi-albert"}
ValidStructureArgs(n, type, lo, hi) == n >= 2 /\ AbsOf(lo) <= AbsOf(hi) /\ type \in KnownTypes

RECURSIVE Power(_, _)
Power(b, k) == IF k = 0 THEN 1 ELSE b * Power(b, k - 1)

(* Edges from the past, <<variable, lag, variable, weight>>; the weights of   *)
(* lag l are smaller by decay^(l-1), decay = num / den.                      *)
LawfulPast(E, n, p, type, degree, lo, hi, num, den) ==
  /\ \A e \in E : /\ e[1] \in 0..(n - 1) /\ e[2] \in 1..p /\ e[3] \in 0..(n - 1)
                  /\ LET w == AbsOf(e[4]) * Power(num, e[2] - 1)
                         s == Power(den, e[2] - 1)
                     IN  w >= lo * 1000 * s - 2 * Power(num, e[2] - 1) /\ w <= hi * 1000 * s + 2 * Power(num, e[2] - 1)
  /\ Cardinality({ << e[1], e[2], e[3] >> : e \in E }) = Cardinality(E)
  /\ type = "full" => Cardinality(E) = n * n * p
  /\ type = "erdos-renyi" => (degree = 0 => E = {}) /\ (degree >= 100 * n => Cardinality(E) = n * n * p)

(* A count out of n independent trials of probability a/b may deviate by 6.5  *)
(* standard deviations and 3.                                                *)
LikelyCount(count, n, a, b) ==
  LET q == IF a > b THEN b ELSE a
      mean == (n * q) \div b
      d == AbsOf(count - mean)
      var == (mean * (b - q)) \div b
  IN  d <= 3 \/ (d < 30000 /\ (d - 3) * (d - 3) <= 42 * (var + 1))
=============================================================================
