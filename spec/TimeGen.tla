------------------------------- MODULE TimeGen -------------------------------
(* Exhaustive exploration of the time-axis state machine within small         *)
(* constants.  Every transition found is printed as a scenario to replay.     *)
EXTENDS TimeModel, TLC, Json
CONSTANTS Datas, Offsets, Disps, Origins, MaxOps, Rich

DatasQuick == {<<0, 3600>>, <<3600>>, <<0, 3600, 9000>>, <<3600, 0>>, <<0, 0>>, <<0, 7200, 3600>>}
OffsetsQuick == {NONE, 0, -28800, 19800}
DispsQuick == {NONE, 0, 5400}
OriginsQuick == {NONE, 7200}

VARIABLES st, hist
vars == <<st, hist>>

ArrInit == {<<a, b>> : a \in Datas, b \in {<<0, 3600>>}}

Init == \E a \in Datas : /\ st = [NoState EXCEPT !.arrs = <<a, <<0, 3600>>>>]
                         /\ hist = <<[op |-> "arrays", a |-> a, b |-> <<0, 3600>>]>>

New == \E s \in Slots, src \in {"arr", "list", "time"}, from \in 1..2, d \in Datas,
          tz \in Offsets, newtz \in Offsets, disp \in Disps, origin \in Origins :
         /\ (src = "list" => from = 1)
         /\ (src # "list" => d = CHOOSE x \in Datas : TRUE)
         /\ (src = "time" => st.objs[from].live)
         /\ (Rich \/ Len(hist) = 1 \/ (newtz = NONE /\ origin = NONE /\ disp = NONE))
         /\ (Rich \/ s = 1 \/ src = "time")
         /\ (src = "list" => Len(hist) = 1)
         /\ LET op == [op |-> "new", slot |-> s, src |-> src, from |-> from, data |-> d, tz |-> tz,
                       newtz |-> newtz, origin |-> origin, disp |-> disp]
            IN \E out \in Outcomes(st, op) : st' = After(st, op, out) /\ hist' = Append(hist, op)

SetTz == \E s \in Slots, v \in Offsets :
            /\ st.objs[s].live
            /\ LET op == [op |-> "settz", slot |-> s, v |-> v] IN st' = Apply(st, op) /\ hist' = Append(hist, op)

SetDisp == \E s \in Slots, v \in Disps, k \in {"td", "hours"} :
            /\ st.objs[s].live
            /\ LET op == [op |-> "setdisp", slot |-> s, v |-> v, kind |-> k]
               IN \E out \in Outcomes(st, op) : st' = After(st, op, out) /\ hist' = Append(hist, op)

SetData == \E s \in Slots, src \in {"arr", "time"}, from \in 1..2 :
            /\ st.objs[s].live
            /\ (src = "time" => st.objs[from].live)
            /\ LET op == [op |-> "setdata", slot |-> s, src |-> src, from |-> from, data |-> <<>>]
               IN Ascending(Source(st, op)) /\ st' = Apply(st, op) /\ hist' = Append(hist, op)

Poke == \E a \in Arrs :
            /\ Len(st.arrs[a]) > 0
            /\ LET op == [op |-> "poke", from |-> a, i |-> 1, v |-> -7200] IN st' = Apply(st, op) /\ hist' = Append(hist, op)

PokeCopy == \E s \in Slots :
            /\ st.objs[s].live
            /\ LET op == [op |-> "pokecopy", slot |-> s] IN st' = Apply(st, op) /\ hist' = Append(hist, op)

Next == Len(hist) <= MaxOps /\ (New \/ SetTz \/ SetDisp \/ SetData \/ Poke \/ PokeCopy)
Spec == Init /\ [][Next]_vars

View == st
Emit == PrintT(ToJson(hist'))

\* properties of the machine
Inv == /\ LiveAscending(st)
       /\ TzRoundTrip(st, Offsets)
       /\ InstantsKept(st, Offsets)
       /\ AlphaInUnit(st, {-9000, 0, 1800, 3600, 5000, 90000})
       /\ AlphaReconstructs(st, {0, 1800, 3600, 5000})
\* an operation changes only the object (or array) it names; shifts keep every interval
LastOp == hist'[Len(hist')]
Isolation == [][ /\ \A s \in Slots : (LastOp.op \in {"poke", "pokecopy"} \/ LastOp.slot # s) => st'.objs[s] = st.objs[s]
                 /\ \A a \in Arrs : LastOp.op # "poke" \/ LastOp.from # a => st'.arrs[a] = st.arrs[a]
                 /\ LastOp.op \in {"settz", "setdisp"} =>
                        Gaps(st'.objs[LastOp.slot].data) = Gaps(st.objs[LastOp.slot].data) ]_vars
=============================================================================
