------------------------------- MODULE Windows -------------------------------
(***************************************************************************)
(* The transformer of time series.  A frame is [cols, idx, rows]: names of *)
(* the columns (numbers), time stamps, and one sequence of values per row. *)
(* fit remembers the columns; transform gives one row for every point of   *)
(* time whose p predecessors are all there.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Increasing(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]
GoodFrame(f) == f.kind = "frame" /\ f.text = FALSE /\ f.intidx /\ Increasing(f.idx)
(* Frames that are given together must have the same columns and types. *)
GoodInput(fs) == /\ Len(fs) > 0
                 /\ \A k \in 1..Len(fs) : GoodFrame(fs[k]) /\ fs[k].cols = fs[1].cols /\ fs[k].types = fs[1].types

PosOf(c, cols) == CHOOSE k \in 1..Len(cols) : cols[k] = c
Pick(f, k, cols) == [j \in 1..Len(cols) |-> f.rows[k][PosOf(cols[j], f.cols)]]

(* Row k of a frame has a complete past of p steps. *)
Complete(f, k, p) == k > p /\ \A l \in 1..p : f.idx[k - l] = f.idx[k] - l
RECURSIVE LagsOf(_, _, _, _, _)
LagsOf(f, k, cols, l, p) == IF l > p THEN << >> ELSE Pick(f, k - l, cols) \o LagsOf(f, k, cols, l + 1, p)
RowsOf(f, cols, p) ==
  LET ks == SelectSeq([k \in 1..Len(f.idx) |-> k], LAMBDA k : Complete(f, k, p))
  IN  [m \in 1..Len(ks) |-> LagsOf(f, ks[m], cols, 0, p)]
Transformed(fs, cols, p) == FoldLeft(LAMBDA acc, f : acc \o RowsOf(f, cols, p), << >>, fs)
Names(cols, p) == [k \in 1..(Len(cols) * (p + 1)) |-> << cols[((k - 1) % Len(cols)) + 1], (k - 1) \div Len(cols) >>]
=============================================================================
