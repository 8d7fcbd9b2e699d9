------------------------------- MODULE UVarGen -------------------------------
(* Histories of a variable, another one and a group of both that remember the  *)
(* last answers.  ver is the version of the data of each variable; an answer   *)
(* is kept with the versions it was taken from, and must be dropped when the   *)
(* data are replaced, deleted or written to.                                   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Items, MaxOps, Drops, Group
VARIABLES ver, kept, last, hist
vars == <<ver, kept, last, hist>>
V == {"u", "v"}
W == V \cup {"g"}
Now(w) == IF w = "g" THEN <<ver["u"], ver["v"]>> ELSE <<ver[w], 0>>
None == <<-1, -1>>
Init == /\ ver = [v \in V |-> 0] /\ kept = [w \in W |-> [i \in Items |-> None]]
        /\ last = [got |-> None, want |-> None] /\ hist = <<>>
Ask(w, i) == LET got == IF kept[w][i] = None THEN Now(w) ELSE kept[w][i] IN
             /\ last' = [got |-> got, want |-> Now(w)]
             /\ kept' = [kept EXCEPT ![w][i] = IF w = "g" /\ ~Group THEN None ELSE got]
             /\ hist' = Append(hist, [op |-> "ask", who |-> w, it |-> i]) /\ UNCHANGED ver
Change(v, how) == /\ ver' = [ver EXCEPT ![v] = 1 - @]
                  /\ kept' = IF how \in Drops THEN [kept EXCEPT ![v] = [i \in Items |-> None]] ELSE kept
                  /\ hist' = Append(hist, [op |-> how, who |-> v]) /\ UNCHANGED last
Scribble == /\ hist # <<>> /\ hist[Len(hist)].op = "ask"
            /\ hist' = Append(hist, [op |-> "scribble", who |-> ""]) /\ UNCHANGED <<ver, kept, last>>
Next == Len(hist) < MaxOps /\ ((\E w \in W, i \in Items : Ask(w, i)) \/ (\E v \in V, h \in {"set", "del", "write"} : Change(v, h)) \/ Scribble)
Spec == Init /\ [][Next]_vars
\* what was asked before counts, though nothing of it need be kept
Asked == {<<hist[k].who, hist[k].it>> : k \in {j \in 1..Len(hist) : hist[j].op = "ask"}}
View == <<ver, kept, Asked, IF hist = <<>> THEN "" ELSE hist[Len(hist)].op>>
Emit == hist'[Len(hist')].op = "ask" => PrintT(ToJson(hist'))
Current == last.got = last.want
===============================================================================
