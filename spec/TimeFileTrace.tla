---------------------------- MODULE TimeFileTrace ----------------------------
EXTENDS TimeFile, TraceLib
VARIABLE l

Load(e) == LET c == e.c  outs == FileOutcomes(c) IN
    Clause(e.out \in outs, "outcome of reading the times")
    \cup (IF e.out = "ok" /\ "ok" \in outs
          THEN LET x == FileObject(c) IN
               Clause(e.o.data = x.data, "times read")
               \cup Clause(e.o.tz = x.tz, "offset read")
               \cup Clause(e.name = FileName(c), "name of the offset")
               \cup Clause(e.o.disp = x.disp, "displacement")
          ELSE {})

Range(s) == {s[i] : i \in DOMAIN s}
Find(e) == LET v == TimeVarOf(e.dims, e.attr, Range(e.alldims), e.hastime) IN
    Clause(e.out = "ok", "outcome of finding the time variable")
    \cup (IF e.out # "ok" THEN {}
          ELSE IF v = "" THEN Clause(e.o.n = 1 /\ e.anytime, "a variable without time is constant in time")
          ELSE Clause(e.o.data = e.axes[v], "times of the variable"))

Bad(e) == IF e.ev = "load" THEN Load(e) ELSE Find(e)

Init == l = 0
Next == /\ l < Len(Log)
        /\ Judge(l + 1, Bad(Log[l + 1]))
        /\ l' = l + 1
        /\ (l' = Len(Log) => PrintT(<<"TRACE-DONE", l'>>))
Spec == Init /\ [][Next]_l
=============================================================================
