----------------------------- MODULE BucketsModel -----------------------------
(***************************************************************************)
(* Laws of the discretiser for every small data set, every method and      *)
(* every value: buckets follow the order of the values, the outermost      *)
(* buckets catch everything, equal widths and equal frequencies are equal, *)
(* a second fit replaces the first.  The data sets are emitted for replay  *)
(* (C23).                                                                  *)
(***************************************************************************)
EXTENDS Buckets, Json, FiniteSetsExt

CONSTANTS Top, Size, Emit
VARIABLES set, data, S, fits
vars == << set, data, S, fits >>

Blank == [method |-> "", buckets |-> Absent, outlier |-> Absent, fixed |-> << Absent >>, pct |-> << Absent >>]
Lists(T) == UNION { [1..k -> T] : k \in 0..2 }
Settings == { [Blank EXCEPT !.method = m, !.buckets = b] : m \in {"uniform", "quantile"}, b \in {1, 2, 4} }
       \cup { [Blank EXCEPT !.method = "outlier", !.outlier = q] : q \in {0, 125, 250, 375} }
       \cup { [Blank EXCEPT !.method = "percentiles", !.pct = s] : s \in Lists({0, 250, 500, 1000}) }
       \cup { [Blank EXCEPT !.method = "fixed", !.fixed = s] : s \in Lists({-1, 0, 2, Top}) }
Data == UNION { { x \in [1..k -> 0..Top] : \A j \in 1..(k - 1) : x[j] <= x[j + 1] } : k \in 1..Size }
Init == /\ set \in { s \in Settings : GoodSettings(s) }
        /\ data = << >> /\ fits = 0
        /\ S = IF set.method = "fixed" THEN SplitPoints(set, << 0 >>) ELSE << >>
Fit == /\ fits < 2 /\ set.method # "fixed"
       /\ \E x \in Data : /\ data' = x /\ S' = SplitPoints(set, x)
                          /\ fits' = fits + 1
       /\ UNCHANGED set
Spec == Init /\ [][Fit]_vars
View == << set, data >>

Values == -2..(Top + 2)
Ready == set.method = "fixed" \/ fits > 0
Sizes(b) == Cardinality({ j \in 1..Len(data) : Bucket(S, data[j]) = b })
LeqPoint(a, b) == a.n * b.d <= b.n * a.d
PointsInOrder == \A j \in 1..(Len(S) - 1) : LeqPoint(S[j], S[j + 1])
Monotone == \A a, b \in Values : a <= b => Bucket(S, a) <= Bucket(S, b)
InRange == \A a \in Values : Bucket(S, a) \in 0..Len(S)
Counted == Ready => FoldSet(LAMBDA b, n : n + Sizes(b), 0, 0..Len(S)) = Len(data)
(* A value belongs to bucket b iff it is not below the b-th split point and *)
(* below the next one: half-open intervals.                                 *)
HalfOpen == \A a \in Values : \A b \in 0..Len(S) :
   Bucket(S, a) = b <=> (b = 0 \/ AtMost(S[b], a)) /\ (b = Len(S) \/ ~AtMost(S[b + 1], a))
FewestAndMost == (set.method \in {"uniform", "quantile", "percentiles"} /\ fits > 0) =>
   \A j \in 1..Len(S) : LeqPoint([n |-> data[1], d |-> 1], S[j]) /\ LeqPoint(S[j], [n |-> data[Len(data)], d |-> 1])
(* Distinct values: no bucket of the quantiles has more than its share.      *)
EvenShares == (set.method = "quantile" /\ fits > 0 /\ \A j \in 1..(Len(data) - 1) : data[j] < data[j + 1]) =>
   \A b \in 0..Len(S) : Sizes(b) <= (Len(data) \div set.buckets) + 1
EvenWidths == (set.method = "uniform" /\ fits > 0) =>
   \A j \in 1..(Len(S) - 1) : S[j + 1].n - S[j].n = data[Len(data)] - data[1]
FewOutliers == (set.method = "outlier" /\ fits > 0) =>
   Sizes(0) * 1000 <= set.outlier * Len(data) + 1000
EmitInput == (Emit /\ Ready) => PrintT("GEN " \o ToJson([set |-> set, data |-> data, ask |-> SetToSortSeq(Values, LAMBDA a, b : a < b)]))
===============================================================================
