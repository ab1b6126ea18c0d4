-------------------------------- MODULE Network --------------------------------
(***************************************************************************)
(* Bayesian networks fitted to data.  Variables are 1..n; every variable   *)
(* has values 1, 2, ... in their natural order, of which the network knows *)
(* the states dom[v], a set.  A data set is a sequence of rows; row[v] is  *)
(* the value of v (0: the data have no column for v).                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

(* ------------------------------- structure ----------------------------- *)
Succs(E, V) == { e[2] : e \in { x \in E : x[1] \in V } }
Preds(E, V) == { e[1] : e \in { x \in E : x[2] \in V } }
RECURSIVE Fwd(_, _)
Fwd(E, V) == LET W == TLCEval(V \cup Succs(E, V)) IN IF W = V THEN V ELSE Fwd(E, W)
RECURSIVE Both(_, _)
Both(E, V) == LET W == TLCEval(V \cup Succs(E, V) \cup Preds(E, V)) IN IF W = V THEN V ELSE Both(E, W)
NoCycle(N, E) == \A v \in N : v \notin Fwd(E, Succs(E, {v}))
OnePiece(N, E) == \A v \in N : Both(E, {v}) = N
(* The structures that a network accepts: acyclic and in one piece.          *)
Usable(N, E) == NoCycle(N, E) /\ OnePiece(N, E)

(* ------------------------------ distributions -------------------------- *)
(* Combinations of states of the variables in ps: functions on ps.           *)
Combos(dom, ps) == { u \in [ps -> UNION ({{1}} \cup { dom[p] : p \in ps })] : \A p \in ps : u[p] \in dom[p] }
Matches(row, u) == \A p \in DOMAIN u : row[p] = u[p]
Count(data, v, k, u) == Cardinality({ r \in 1..Len(data) : data[r][v] = k /\ Matches(data[r], u) })
Total(data, u) == Cardinality({ r \in 1..Len(data) : Matches(data[r], u) })
Cells(dom, ps) == FoldSet(LAMBDA p, acc : acc * Cardinality(dom[p]), 1, ps)

(* P(v = k | parents = u) of the network fitted to data: <<numerator,        *)
(* denominator>>.  fit.kind: relative frequencies ("mle", uniform where      *)
(* nothing was observed), one pseudo observation for every state ("k2"), or  *)
(* an equivalent sample of fit.ess observations spread evenly ("bdeu").      *)
Fitted(fit, data, dom, ps, v, k, u) ==
  LET c == Count(data, v, k, u)
      t == Total(data, u)
      q == Cells(dom, ps)
      r == Cardinality(dom[v])
  IN  CASE fit.kind = "mle"  -> IF t = 0 THEN << 1, r >> ELSE << c, t >>
        [] fit.kind = "k2"   -> << c + 1, t + r >>
        [] fit.kind = "bdeu" -> << c * r * q + fit.ess, t * r * q + fit.ess * r >>
SameRatio(a, b) == b[2] > 0 /\ a[1] * b[2] = b[1] * a[2]
(* The most probable states. *)
BestOf(dom, P(_)) == { k \in dom : \A j \in dom : P(j)[1] * P(k)[2] <= P(k)[1] * P(j)[2] }

(* ------------------ posteriors of a fitted network (small) -------------- *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == (a \div Gcd(a, b)) * b
(* A common denominator of all entries of the table of v. *)
Common(fit, data, dom, ps, v) ==
  FoldSet(LAMBDA u, acc : Lcm(acc, Fitted(fit, data, dom, ps, v, Min(dom[v]), u)[2]), 1, Combos(dom, ps))
(* Integer weight of a complete assignment x (a function on 1..n). *)
WeightOf(fit, data, dom, pa, L, n, x) ==
  FoldLeft(LAMBDA acc, v : LET f == Fitted(fit, data, dom, pa[v], v, x[v], [p \in pa[v] |-> x[p]]) IN acc * (f[1] * (L[v] \div f[2])), 1, [v \in 1..n |-> v])
Worlds(dom, n, row) == Combos([v \in 1..n |-> IF row[v] = 0 THEN dom[v] ELSE {row[v]}], 1..n)
PosteriorW(fit, data, dom, pa, L, n, row, v, k) ==
  FoldSet(LAMBDA x, acc : acc + WeightOf(fit, data, dom, pa, L, n, x), 0, Worlds(dom, n, [row EXCEPT ![v] = k]))
=============================================================================
