---------------------------- MODULE TimeLookupGen ----------------------------
(* All time axes of up to MaxLen times on a small clock, with every query     *)
(* time of interest; the lookup rules are checked on each and every axis is   *)
(* printed as a case to replay.                                               *)
EXTENDS TimeModel, TLC, Json
CONSTANTS Clock, MaxLen

VARIABLES d
Queries(x) == {x[1] - 450, x[Len(x)] + 450} \cup {x[i] : i \in 1..Len(x)}
              \cup {x[i] + 1 : i \in 1..Len(x)} \cup {x[i] - 1 : i \in 1..Len(x)}
              \cup {(x[i] + x[i + 1]) \div 2 : i \in 1..(Len(x) - 1)}
RECURSIVE SetToSeqAsc(_)
SetToSeqAsc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SetToSeqAsc(S \ {m})

Init == d \in {<<c>> : c \in Clock}
Next == /\ Len(d) < MaxLen
        /\ \E c \in Clock : c > d[Len(d)] /\ d' = Append(d, c)
Spec == Init /\ [][Next]_d
Emit == PrintT(ToJson([data |-> d, times |-> SetToSeqAsc(Queries(d))]))

One == [NoState EXCEPT !.objs[1] = Obj(d, NONE, NONE)]
Inv == /\ AlphaInUnit(One, Queries(d))
       /\ AlphaReconstructs(One, Queries(d))
       \* the index never decreases and the position index+weight-1 is non-decreasing in the query time
       /\ \A s, t \in Queries(d) : s <= t => IndexOf(d, s) <= IndexOf(d, t)
       /\ \A t \in Queries(d) : LookupOutcome(d, t, FALSE) = "ok" <=> (Len(d) = 1 \/ InBounds(d, t))
       \* asking for one of the times of the axis gives exactly that time
       /\ \A i \in 2..Len(d) : IndexOf(d, d[i]) = i - 1 /\ Alpha(d, d[i])[1] = Alpha(d, d[i])[2]
EmitInv == Inv /\ Emit
=============================================================================
