------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A user session with belief networks (C03, C04, C13).                    *)
(*                                                                         *)
(* Networks are built once and only read afterwards: every operation of    *)
(* the public interface leaves the content of all networks as it is, a     *)
(* request with unacceptable evidence is refused before anything happens,  *)
(* and scribbling over a returned result touches nothing else.  The        *)
(* histories of this model, up to the length Depth, are replayed against   *)
(* the code by the driver of C04.                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, FiniteSets, Json

CONSTANTS Depth, Emit

Nets == {1, 2}
Evidence == {"none", "some", "more", "impossible"}

VARIABLES content,   \* what each network stands for (a version number)
          held,      \* the result the user holds: the answer it was, or "scribbled", or nothing
          refused,   \* number of refused requests
          hist

vars == <<content, held, refused, hist>>

Answer(n, e) == <<"answer", content[n], e>>

Init == /\ content = [n \in Nets |-> n]
        /\ held = << >>
        /\ refused = 0
        /\ hist = << >>

Log(op) == hist' = Append(hist, op)

Query(n, e) == /\ held' = Answer(n, e)
               /\ UNCHANGED <<content, refused>>
               /\ Log(<<"query", n, e>>)
Refuse(n, how, why) == /\ refused' = refused + 1
                       /\ UNCHANGED <<content, held>>
                       /\ Log(<<how, n, why>>)
Sample(n, e) == /\ e # "impossible"
                /\ UNCHANGED <<content, held, refused>>
                /\ Log(<<"sample", n, e>>)
Export(n) == UNCHANGED <<content, held, refused>> /\ Log(<<"export", n, "none">>)
JoinTree(n, e) == UNCHANGED <<content, held, refused>> /\ Log(<<"jointree", n, e>>)
Scribble == /\ held # << >>
            /\ held' = <<"scribbled">>
            /\ UNCHANGED <<content, refused>>
            /\ Log(<<"scribble", 1, "none">>)
Rebuild(n) == UNCHANGED <<content, held, refused>> /\ Log(<<"rebuild", n, "none">>)

Next == /\ Len(hist) < Depth
        /\ \/ \E n \in Nets, e \in Evidence : Query(n, e) \/ Sample(n, e)
           \/ \E n \in Nets : \/ Refuse(n, "badquery", "name") \/ Refuse(n, "badquery", "value")
                              \/ Refuse(n, "badsample", "name") \/ Export(n)
                              \/ JoinTree(n, "some") \/ Rebuild(n)
           \/ Scribble

Spec == Init /\ [][Next]_vars

(* The content never changes, so an answer never depends on the history. *)
ContentKept == [][content' = content]_vars
HeldIsRight == \/ held = << >> \/ held = <<"scribbled">>
               \/ \E n \in Nets, e \in Evidence : held = <<"answer", n, e>>

EmitHist == (Emit /\ Len(hist) = Depth) => PrintT("GEN " \o ToJson(hist))
=============================================================================
