------------------------------- MODULE VarCache -------------------------------
(* Queries of a variable with a bounded memo of earlier answers, while the    *)
(* variable is changed under it and the caller writes into what he was given. *)
(* ver holds the version of everything an answer depends on.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NQ, Opts, Changes, Cap, MaxOps, KeyedOn

VARIABLES ver, memo, last, hist
vars == <<ver, memo, last, hist>>

Fresh(q, o) == [q |-> q, o |-> o, ver |-> ver]
Key(q, o) == [q |-> q, o |-> o, ver |-> [c \in KeyedOn |-> ver[c]]]
Hit(k) == {i \in 1..Len(memo) : memo[i].key = k}

Query(q, o) ==
    LET k == Key(q, o) IN
    /\ IF Hit(k) # {}
       THEN LET i == CHOOSE x \in Hit(k) : TRUE IN last' = [want |-> Fresh(q, o), got |-> memo[i].val] /\ memo' = memo
       ELSE /\ last' = [want |-> Fresh(q, o), got |-> Fresh(q, o)]
            /\ memo' = Append(IF Len(memo) >= Cap THEN Tail(memo) ELSE memo, [key |-> k, val |-> Fresh(q, o)])
    /\ hist' = Append(hist, [op |-> "at", q |-> q, o |-> o])
    /\ UNCHANGED ver

Change(c) == /\ ver' = [ver EXCEPT ![c] = 1 - @]
             /\ hist' = Append(hist, [op |-> "change", c |-> c])
             /\ UNCHANGED <<memo, last>>

\* the caller overwrites the answer he was given: it is his own copy
Scribble == /\ Len(hist) > 0 /\ hist[Len(hist)].op = "at"
            /\ hist' = Append(hist, [op |-> "scribble"])
            /\ UNCHANGED <<ver, memo, last>>

None == [want |-> <<>>, got |-> <<>>]
Init == ver = [c \in Changes |-> 0] /\ memo = <<>> /\ last = None /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \/ \E q \in 1..NQ, o \in Opts : Query(q, o)
           \/ \E c \in Changes : Change(c)
           \/ Scribble
Spec == Init /\ [][Next]_vars
View == <<ver, memo, IF hist = <<>> THEN "" ELSE hist[Len(hist)].op>>
Emit == hist'[Len(hist')].op = "at" => PrintT(ToJson(hist'))

\* the memo never shows: every answer is the one a fresh variable in the same state gives
Transparent == last.got = last.want
=============================================================================
