------------------------------ MODULE TimeTrace ------------------------------
(* Judges the recorded calls on real Time objects against TimeModel.          *)
EXTENDS TimeModel, TraceLib, Rat

VARIABLES l, st, sid
vars == <<l, st, sid>>

ObsObj(o) == [live |-> o.live, data |-> o.data, tz |-> o.tz, disp |-> o.disp]
ObsState(s) == [objs |-> [i \in Slots |-> ObsObj(s.objs[i])], arrs |-> s.arrs]

StateClauses(e, exp) ==
    UNION {LET o == e.st.objs[i]  x == exp.objs[i] IN
           IF ~x.live THEN {}
           ELSE Clause(o.data = x.data, "times held by the object")
             \cup Clause(o.tz = x.tz, "offset of the object")
             \cup Clause(o.disp = x.disp, "displacement of the object")
             \cup Clause(o.n = Len(x.data), "length")
             \cup Clause(o.it = x.data, "iteration")
             \cup Clause(o.arr = x.data, "time array")
             \cup Clause(Len(x.data) = 0 \/ (o.min = x.data[1] /\ o.max = x.data[Len(x.data)]), "first and last time")
           : i \in Slots}
    \cup Clause(e.st.arrs = exp.arrs, "the caller's arrays")
    \cup Clause(\A q \in DOMAIN e.st.eqs : LET r == e.st.eqs[q]
                                               same == SameTime(exp.objs[r[1]], exp.objs[r[2]])
                                           IN r[3] = same /\ r[4] = ~same, "comparison of time axes")

LookupClauses(e, s) ==
    LET d == s.objs[e.op.slot].data
        want == LookupOutcome(d, e.op.t, e.op.ex)
    IN Clause(e.out = want, "index: outcome")
       \cup Clause(e.outa = want, "weight: outcome")
       \cup (IF e.out = "ok" /\ want = "ok" THEN Clause(e.idx = IndexOf(d, e.op.t), "index") ELSE {})
       \cup (IF e.outa = "ok" /\ want = "ok"
             THEN Clause(LET a == Alpha(d, e.op.t) IN e.alpha = Frac(a[1], a[2]), "weight") ELSE {})
       \cup Clause(e.outb = "ok" /\ e.inb = InBounds(d, e.op.t), "time_in_bounds")
       \cup Clause(e.outv = (IF InBounds(d, e.op.t) THEN "ok" ELSE "err:OutOfTimeRangeError"), "valid_time")

Expected(s, e) ==
    IF e.ev = "arrays" THEN [NoState EXCEPT !.arrs = <<e.op.a, e.op.b>>]
    ELSE IF e.ev = "lookup" THEN s
    ELSE After(s, e.op, IF e.out \in Outcomes(s, e.op) THEN e.out
                        ELSE CHOOSE o \in Outcomes(s, e.op) : TRUE)

Bad(s, e) ==
    (IF e.ev = "lookup" THEN LookupClauses(e, s)
     ELSE IF e.ev = "arrays" THEN {}
     ELSE Clause(e.out \in Outcomes(s, e.op), "outcome of " \o e.ev))
    \cup StateClauses(e, Expected(s, e))

Init == l = 0 /\ st = NoState /\ sid = -1
Next == /\ l < Len(Log)
        /\ LET e == Log[l + 1] IN
             /\ Judge(l + 1, Bad(st, e))
             /\ st' = Expected(st, e)
             /\ sid' = e.sid
        /\ l' = l + 1
        /\ (l' = Len(Log) => PrintT(<<"TRACE-DONE", l'>>))
Spec == Init /\ [][Next]_vars
=============================================================================
