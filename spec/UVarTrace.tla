------------------------------ MODULE UVarTrace ------------------------------
(* Judges recorded calls on real UVar, UMVar and SGridVariable objects.  data  *)
(* are the data each variable has now, group the variables of the group.       *)
EXTENDS UVar, TraceLib
VARIABLES l, data, group

Ok(e, rest) == Clause(e.out = "ok", "outcome") \cup (IF e.out # "ok" THEN {} ELSE rest)
Column(d) == [j \in 1..Len(d) |-> <<d[j]>>]
Seen(e) == IF e.who = 0 THEN [v \in 1..Len(group) |-> data[group[v]]] ELSE <<data[e.who]>>
AskClauses(e) ==
    LET ds == Seen(e) IN
    IF ~Fits(e.it, Len(ds[1])) THEN Clause(e.out # "ok", "an item that does not fit is refused")
    ELSE Ok(e, Clause(e.got = Stack(ds, e.it), "what the item names")
               \cup Clause(e.nd = IF e.who = 0 THEN 2 ELSE Dim(e.it), "dimensions of the answer"))
Numbers(d) == {d[j] : j \in 1..Len(d)} \ {HOLE}
InfoClauses(e) ==
    LET d == data[e.who] IN
    Ok(e, Clause(e.shape = <<Len(d)>> /\ e.len = Len(d) /\ e.ndim = 1, "shape of the data")
          \cup Clause(e.all = d, "the data")
          \cup Clause(Numbers(d) = {} \/ (e.max \in Numbers(d) /\ \A x \in Numbers(d) : x <= e.max), "largest value")
          \cup Clause(Numbers(d) = {} \/ (e.min \in Numbers(d) /\ \A x \in Numbers(d) : x >= e.min), "smallest value"))
Locs == {"node", "edge", "face", "boundary"}
VarClauses(e) ==
    IF e.loc \notin Locs /\ e.cls = "UVar" THEN Clause(e.out = "err:ValueError", "a wrong location is refused")
    ELSE Ok(e, Clause(e.gotattrs = e.attrs, "attributes") \cup Clause(e.gotloc = e.loc, "location") \cup Clause(e.gotname = e.name, "name"))
\* members: numbers of variables; all of the same length, at least two
GroupClauses(e) ==
    IF Len(e.members) < 2 \/ e.loc \notin Locs \cup {"none"} \/ (\E i, j \in 1..Len(e.members) : Len(data[e.members[i]]) # Len(data[e.members[j]]))
    THEN Clause(e.out = "err:ValueError", "a group that cannot be is refused")
    ELSE Ok(e, Clause(e.names = e.want, "names of the group"))
AddClauses(e) ==
    LET same == \E v \in 1..Len(group) : e.name = e.want[v] IN
    IF same \/ Len(data[e.v]) # Len(data[group[1]])
    THEN Clause(e.out = "err:ValueError", "a variable that does not belong is refused") \cup Clause(e.names = e.want, "a refused variable changes nothing")
    ELSE Ok(e, Clause(e.names = Append(e.want, e.name), "names of the group"))

Bad(e) ==
    (CASE e.ev = "var" -> VarClauses(e)
       [] e.ev = "group" -> GroupClauses(e)
       [] e.ev = "add" -> AddClauses(e)
       [] e.ev = "ask" -> AskClauses(e)
       [] e.ev = "info" -> InfoClauses(e)
       [] e.ev = "change" -> Clause(e.out = "ok", "outcome")
       [] OTHER -> {})
    \cup Clause(e.same, "what the caller handed over is left alone")

Init == l = 0 /\ data = <<>> /\ group = <<>>
Next == /\ l < Len(Log)
        /\ LET e == Log[l + 1] IN
             /\ Judge(l + 1, Bad(e))
             /\ data' = CASE e.ev = "start" -> <<>>
                          [] e.ev = "var" -> (IF e.out = "ok" THEN Append(data, e.data) ELSE data)
                          [] e.ev = "change" -> [data EXCEPT ![e.who] = IF e.how = "write" THEN Put(@, e.at, e.x) ELSE e.data]
                          [] OTHER -> data
             /\ group' = CASE e.ev = "start" -> <<>>
                           [] e.ev = "group" /\ e.out = "ok" -> e.members
                           [] e.ev = "add" /\ e.out = "ok" -> Append(group, e.v)
                           [] OTHER -> group
        /\ l' = l + 1
        /\ (l' = Len(Log) => PrintT(<<"TRACE-DONE", l'>>))
Spec == Init /\ [][Next]_<<l, data, group>>
===============================================================================
