-------------------------- MODULE TraceFrequencies --------------------------
(* C14: samples follow the conditional joint distribution.                   *)
(* event: e = evidence, n = number of samples, cells = <<assignment, count>> *)
(* for the assignments that occurred; lags: for several distances the counts *)
(* p = <<x, y, count>> (numbers of assignments within cells) of n disjoint   *)
(* pairs of samples at that distance                                         *)
(* A count may deviate by 6.5 standard deviations and 3.                     *)
EXTENDS TraceBase, Prob

TSt0(case) == Assert(IsNet(case.net), <<"bad net", case.id>>)

(* |count - n*w/z| within the tolerance; n <= 40000, z <= 50000/w-ish small numbers *)
Within(count, n, w, z) ==
  LET mean == (n * w) \div z
      d == Abs(count - mean)
      var == (((n * w) \div z) * (z - w)) \div z
  IN  d <= 3 \/ (d - 3) * (d - 3) <= 42 * (var + 1)

TJudge(case, s, e) ==
  IF e.out # "ok" THEN "sampling-" \o e.out
  ELSE
  LET net == case.net
      S == TLCEval(Support(net, e.e))
      z == SumW(S)
      C == 1..Len(e.cells)
      wOf == TLCEval([ i \in C |-> IF \E a \in S : a.x = e.cells[i][1] THEN (CHOOSE a \in S : a.x = e.cells[i][1]).w ELSE 0 ])
      total == FoldLeft(LAMBDA a, b : a + b[2], 0, e.cells)
  IN  CASE total # e.n -> "wrong-number-of-samples"
        [] \E i \in C : wOf[i] = 0 -> "impossible-assignment-drawn"
        [] \E i \in C : ~Within(e.cells[i][2], e.n, wOf[i], z) -> "frequency-off"
        [] \E a \in S : (~\E i \in C : e.cells[i][1] = a.x) /\ ~Within(0, e.n, a.w, z) -> "assignment-never-drawn"
        [] \E l \in Range(e.lags) : \E p \in Range(l.p) : ~Within(p[3], l.n, wOf[p[1]] * wOf[p[2]], z * z) -> "samples-not-independent"
        [] OTHER -> "ok"

TStNext(case, s, e) == s
=============================================================================
