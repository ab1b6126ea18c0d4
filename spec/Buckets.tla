------------------------------- MODULE Buckets -------------------------------
(***************************************************************************)
(* The discretiser.  Values are integers (multiples of a quarter in the    *)
(* code); a split point is a rational [n, d].  The bucket of a value is    *)
(* the number of split points that are not greater than it.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Methods == {"uniform", "quantile", "outlier", "fixed", "percentiles"}
Absent == 1000000

NonDecreasing(s) == \A k \in 1..(Len(s) - 1) : s[k] <= s[k + 1]
(* c: [method, buckets, outlier (thousandths), fixed, pct (thousandths)];   *)
(* absent arguments are Absent, absent lists are << Absent >>.              *)
Given(s) == s # << Absent >>
GoodSettings(c) ==
  /\ c.method \in Methods
  /\ c.method \in {"uniform", "quantile"} => c.buckets # Absent
  /\ c.method = "outlier" => c.outlier # Absent
  /\ c.outlier # Absent => c.outlier >= 0 /\ c.outlier < 500
  /\ c.method = "fixed" => Given(c.fixed)
  /\ Given(c.fixed) => NonDecreasing(c.fixed)
  /\ c.method = "percentiles" => Given(c.pct)
  /\ Given(c.pct) => NonDecreasing(c.pct) /\ \A k \in 1..Len(c.pct) : c.pct[k] >= 0 /\ c.pct[k] <= 1000

Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
(* The quantile num/den of sorted values, by linear interpolation. *)
Quantile(x, num, den) ==
  LET h  == (Len(x) - 1) * num
      lo == h \div den
      r  == h % den
  IN  IF r = 0 THEN [n |-> x[lo + 1], d |-> 1]
      ELSE [n |-> x[lo + 1] * (den - r) + x[lo + 2] * r, d |-> den]

SplitPoints(c, data) ==
  LET x == Sorted(data)
      N == Len(x)
  IN  CASE c.method = "uniform" -> [k \in 1..(c.buckets - 1) |-> [n |-> x[1] * c.buckets + k * (x[N] - x[1]), d |-> c.buckets]]
        [] c.method = "quantile" -> [k \in 1..(c.buckets - 1) |-> Quantile(x, k, c.buckets)]
        [] c.method = "outlier" -> << Quantile(x, c.outlier, 1000), Quantile(x, 1000 - c.outlier, 1000) >>
        [] c.method = "percentiles" -> [k \in 1..Len(c.pct) |-> Quantile(x, c.pct[k], 1000)]
        [] OTHER -> [k \in 1..Len(c.fixed) |-> [n |-> c.fixed[k], d |-> 1]]

AtMost(p, v) == p.n <= v * p.d
Below(p, v) == p.n < v * p.d
Bucket(S, v) == Cardinality({ k \in 1..Len(S) : AtMost(S[k], v) })
BucketStrict(S, v) == Cardinality({ k \in 1..Len(S) : Below(S[k], v) })

(* Floating-point arithmetic decides for a value that is exactly on a split *)
(* point computed with rounding; otherwise there is one answer.              *)
RightBucket(S, v, b, exact) == IF exact THEN b = Bucket(S, v) ELSE b \in BucketStrict(S, v)..Bucket(S, v)
=============================================================================
