------------------------------ MODULE TimeModel ------------------------------
(* State machine of the time axis (gridded.Time).                             *)
(*                                                                            *)
(* Two Time objects (slots 1, 2) and two arrays of times that belong to the   *)
(* caller.  Times are whole seconds from a base date, offsets and             *)
(* displacements are seconds.  NONE stands for Python's None.                 *)
EXTENDS Integers, Sequences, FiniteSets

NONE == -1000000
Slots == 1..2
Arrs == 1..2

Ascending(d) == \A i \in 1..(Len(d) - 1) : d[i] < d[i + 1]
Shift(d, k) == [i \in 1..Len(d) |-> d[i] + k]
Gaps(d) == [i \in 1..(Len(d) - 1) |-> d[i + 1] - d[i]]

Absent == [live |-> FALSE, data |-> <<>>, tz |-> NONE, disp |-> NONE]
Obj(d, tz, disp) == [live |-> TRUE, data |-> d, tz |-> tz, disp |-> disp]

(* ---- the construction rule ---- *)
TzKnown(tz, newtz) == newtz = NONE \/ tz # NONE

BuildData(d, tz, newtz, origin, disp) ==
    LET d1 == IF origin = NONE THEN d ELSE Shift(d, origin - d[1])
        d2 == IF newtz = NONE THEN d1 ELSE Shift(d1, newtz - tz)
    IN IF disp = NONE THEN d2 ELSE Shift(d2, disp)

\* the set of outcomes the construction may have: "ok" or the class of the error raised
BuildOutcomes(d, tz, newtz) ==
    IF TzKnown(tz, newtz) /\ Ascending(d) THEN {"ok"}
    ELSE (IF TzKnown(tz, newtz) THEN {} ELSE {"err:ValueError"})
         \cup (IF Ascending(d) THEN {} ELSE {"err:TimeSeriesError"})

Build(d, tz, newtz, origin, disp) ==
    Obj(BuildData(d, tz, newtz, origin, disp), IF newtz = NONE THEN tz ELSE newtz, disp)

(* ---- changes of an existing object ---- *)
\* a known offset is replaced by another: the same instants, expressed in the new offset
WithTz(o, v) == [o EXCEPT !.tz = v,
                          !.data = IF o.tz # NONE /\ v # NONE THEN Shift(o.data, v - o.tz) ELSE o.data]

DispOutcome(o) == IF o.disp = NONE THEN "ok" ELSE "err:AttributeError"
WithDisp(o, v) == IF o.disp # NONE \/ v = NONE THEN o
                  ELSE [o EXCEPT !.disp = v, !.data = Shift(o.data, v)]

WithData(o, d) == [o EXCEPT !.data = d]

SameTime(a, b) == a.data = b.data /\ a.tz = b.tz

(* ---- lookups ---- *)
InBounds(d, t) == d[1] <= t /\ t <= d[Len(d)]
LookupOutcome(d, t, extrap) == IF extrap \/ Len(d) = 1 \/ InBounds(d, t) THEN "ok" ELSE "err:OutOfTimeRangeError"
\* number of times strictly before t (0 for a single time)
IndexOf(d, t) == IF Len(d) = 1 THEN 0 ELSE Cardinality({i \in 1..Len(d) : d[i] < t})
\* interpolation weight as a pair numerator/denominator
Alpha(d, t) == LET i == IndexOf(d, t)
               IN IF i = 0 THEN <<0, 1>>
                  ELSE IF i > Len(d) - 1 THEN <<1, 1>>
                  ELSE <<t - d[i], d[i + 1] - d[i]>>

(* ---- one operation of a scenario, as a function of the state ---- *)
\* state: [objs |-> [Slots -> object], arrs |-> [Arrs -> Seq(Int)]]
NoState == [objs |-> [s \in Slots |-> Absent], arrs |-> [a \in Arrs |-> <<>>]]

Source(st, op) == IF op.src = "arr" THEN st.arrs[op.from]
                  ELSE IF op.src = "time" THEN st.objs[op.from].data
                  ELSE op.data

Outcomes(st, op) ==
    CASE op.op = "new" -> BuildOutcomes(Source(st, op), op.tz, op.newtz)
      [] op.op = "setdisp" -> {DispOutcome(st.objs[op.slot])}
      [] OTHER -> {"ok"}

\* the state after the operation, when it succeeds
Apply(st, op) ==
    CASE op.op = "new" ->
            [st EXCEPT !.objs[op.slot] = Build(Source(st, op), op.tz, op.newtz, op.origin, op.disp)]
      [] op.op = "settz" -> [st EXCEPT !.objs[op.slot] = WithTz(@, op.v)]
      [] op.op = "setdisp" -> [st EXCEPT !.objs[op.slot] = WithDisp(@, op.v)]
      [] op.op = "setdata" -> [st EXCEPT !.objs[op.slot] = WithData(@, Source(st, op))]
      [] op.op = "poke" -> [st EXCEPT !.arrs[op.from][op.i] = op.v]      \* the caller changes an array of his own
      [] op.op = "pokecopy" -> st                                        \* ... or a copy he asked for
      [] OTHER -> st

After(st, op, out) == IF out = "ok" THEN Apply(st, op) ELSE st

(* ------------------------------------------------------------------------- *)
(* Meta-properties of the rules, checked by TLC on every reachable state      *)
LiveAscending(st) == \A s \in Slots : st.objs[s].live => Ascending(st.objs[s].data)
TzRoundTrip(st, offsets) ==
    \A s \in Slots : \A v \in offsets :
        st.objs[s].live /\ st.objs[s].tz # NONE /\ v # NONE => WithTz(WithTz(st.objs[s], v), st.objs[s].tz) = st.objs[s]
\* an instant is data - tz: unchanged by re-expressing in another offset
InstantsKept(st, offsets) ==
    \A s \in Slots : \A v \in offsets : LET o == st.objs[s] IN
        o.live /\ o.tz # NONE /\ v # NONE => Shift(WithTz(o, v).data, -v) = Shift(o.data, -o.tz)
AlphaInUnit(st, times) ==
    \A s \in Slots : \A t \in times : LET o == st.objs[s] IN
        o.live => LET a == Alpha(o.data, t) IN 0 <= a[1] /\ a[1] <= a[2] /\ a[2] > 0
AlphaReconstructs(st, times) ==
    \A s \in Slots : \A t \in times : LET o == st.objs[s] IN
        o.live /\ Len(o.data) > 1 /\ InBounds(o.data, t) =>
            LET i == IndexOf(o.data, t)  a == Alpha(o.data, t)
            IN IF i = 0 THEN t = o.data[1]
               ELSE o.data[i] < t /\ t <= o.data[i + 1] /\ o.data[i] * a[2] + a[1] * (o.data[i+1] - o.data[i]) = t * a[2]
=============================================================================
