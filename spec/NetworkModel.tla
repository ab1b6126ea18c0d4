----------------------------- MODULE NetworkModel -----------------------------
(***************************************************************************)
(* The life of a network: states are given or read from data, tables are   *)
(* fitted, both can be refused, the structure model it was made from goes  *)
(* on being edited.  All histories up to a length are emitted for replay   *)
(* (C25); the laws say what refusals and edits must not touch.             *)
(*                                                                         *)
(* states: number of the last accepted states (0: none); tables: which     *)
(* states and which data the tables were fitted with (<<0, 0>>: none).     *)
(* After new states the tables are gone or are those of before: Keeps says *)
(* nothing about them until the next fit.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Depth, Emit
VARIABLES states, tables, made, edits, hist
vars == << states, tables, made, edits, hist >>

Init == states = 0 /\ tables = << 0, 0 >> /\ made = 0 /\ edits = 0 /\ hist = << >>
Note(x) == hist' = Append(hist, x)
Give(good, byfit) ==
  /\ IF good THEN states' = made + 1 /\ made' = made + 1 ELSE UNCHANGED << states, made >>
  /\ Note(<< IF good THEN "states" ELSE "badstates", IF byfit THEN 1 ELSE 0 >>)
  /\ UNCHANGED << tables, edits >>
Fit(good) ==
  /\ states # 0
  /\ IF good THEN tables' = << states, made + 1 >> /\ made' = made + 1 ELSE UNCHANGED << tables, made >>
  /\ Note(<< IF good THEN "fit" ELSE "badfit", 0 >>)
  /\ UNCHANGED << states, edits >>
Both == /\ states' = made + 1 /\ tables' = << made + 1, made + 1 >> /\ made' = made + 1
        /\ Note(<< "both", 0 >>) /\ UNCHANGED edits
Edit == edits' = edits + 1 /\ Note(<< "edit", 0 >>) /\ UNCHANGED << states, tables, made >>
Ask == tables # << 0, 0 >> /\ tables[1] = states /\ Note(<< "predict", 0 >>) /\ UNCHANGED << states, tables, made, edits >>
Next == /\ Len(hist) < Depth
        /\ \/ \E g, b \in BOOLEAN : Give(g, b)
           \/ \E g \in BOOLEAN : Fit(g)
           \/ Both \/ Edit \/ Ask
Spec == Init /\ [][Next]_vars

Last == hist'[Len(hist')][1]
RefusalsTouchNothing == [][(Last \in {"badstates", "badfit", "edit", "predict"}) => UNCHANGED << states, tables >>]_vars
TablesNeedStates == tables # << 0, 0 >> => states # 0 /\ tables[1] <= states
LatestWins == states <= made /\ tables[2] <= made
EmitHist == (Emit /\ Len(hist) = Depth) => PrintT("GEN " \o ToJson(hist))
===============================================================================
