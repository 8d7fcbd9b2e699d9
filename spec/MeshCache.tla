------------------------------- MODULE MeshCache -------------------------------
(* Searches and derived arrays of a mesh that is changed between them.  ver   *)
(* is the version of the nodes and of the faces; every cache remembers the    *)
(* version it was computed from and is dropped when the mesh changes.         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Queries, MaxOps, DropOnNodes, DropOnFaces
VARIABLES ver, cache, last, hist
vars == <<ver, cache, last, hist>>
NoCache == [q \in Queries |-> <<>>]
Ask(q) == /\ LET got == IF cache[q] = <<>> THEN ver ELSE cache[q] IN
             last' = [got |-> got, want |-> ver] /\ cache' = [cache EXCEPT ![q] = got]
          /\ hist' = Append(hist, [op |-> "ask", q |-> q]) /\ UNCHANGED ver
Scribble == /\ hist # <<>> /\ hist[Len(hist)].op = "ask"
            /\ hist' = Append(hist, [op |-> "scribble"]) /\ UNCHANGED <<ver, cache, last>>
SetNodes == /\ ver' = <<1 - ver[1], ver[2]>> /\ cache' = [q \in Queries |-> IF q \in DropOnNodes THEN <<>> ELSE cache[q]]
            /\ hist' = Append(hist, [op |-> "nodes"]) /\ UNCHANGED last
SetFaces == /\ ver' = <<ver[1], 1 - ver[2]>> /\ cache' = [q \in Queries |-> IF q \in DropOnFaces THEN <<>> ELSE cache[q]]
            /\ hist' = Append(hist, [op |-> "faces"]) /\ UNCHANGED last
DelFaces == /\ ver' = <<ver[1], 1 - ver[2]>> /\ cache' = [q \in Queries |-> IF q \in DropOnFaces THEN <<>> ELSE cache[q]]
            /\ hist' = Append(hist, [op |-> "delfaces"]) /\ UNCHANGED last
Init == ver = <<0, 0>> /\ cache = NoCache /\ last = [got |-> <<0, 0>>, want |-> <<0, 0>>] /\ hist = <<>>
Next == Len(hist) < MaxOps /\ ((\E q \in Queries : Ask(q)) \/ SetNodes \/ SetFaces \/ DelFaces \/ Scribble)
Spec == Init /\ [][Next]_vars
\* what was asked before counts, though nothing of it need be kept
Asked == {hist[k].q : k \in {j \in 1..Len(hist) : hist[j].op = "ask"}}
View == <<ver, cache, Asked, IF hist = <<>> THEN "" ELSE hist[Len(hist)].op>>
Emit == hist'[Len(hist')].op = "ask" => PrintT(ToJson(hist'))
Current == last.got = last.want
=============================================================================
