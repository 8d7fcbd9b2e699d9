------------------------------- MODULE VarTrace -------------------------------
(* Judges recorded queries of real Variables and VectorVariables.  The state   *)
(* of the model is the sequence of fields of the components (one for a plain   *)
(* variable); every change of the real object is one line of the trace.        *)
EXTENDS FieldModel, TraceLib
VARIABLES l, fs

Comps == 1..Len(fs)

\* ---- changes ----
ChangeField(f, e) ==
    CASE e.what = "data" -> [f EXCEPT !.A = e.f.A, !.B = e.f.B, !.C = e.f.C, !.gaps = e.f.gaps]
      [] e.what = "time" -> [f EXCEPT !.times = e.times]
      [] e.what = "shift" -> [f EXCEPT !.times = IF f.times = <<>> THEN f.times ELSE Shift(f.times, e.by)]
      [] e.what = "fill" -> [f EXCEPT !.fill = e.fill]
      [] e.what = "grid" -> [f EXCEPT !.gx = e.gx]
Touched(e) == IF e.comp = 0 THEN Comps ELSE {e.comp}     \* 0 = the whole vector
NextFields(e) ==
    IF e.ev = "make" THEN e.fs
    ELSE IF e.ev = "change" /\ e.out = "ok" THEN [i \in Comps |-> IF i \in Touched(e) THEN ChangeField(fs[i], e) ELSE fs[i]]
    ELSE fs

\* ---- queries: cols = which components the answer has as columns ----
Want(e, i, j) == AtValue(fs[e.cols[j]], e.t, e.pts[i], e.um)
Outs(e) == {AtOutcome(fs[e.cols[j]], e.t, e.ex) : j \in 1..Len(e.cols)}
AtClauses(e) ==
    LET outs == Outs(e)  errs == outs \ {"ok"} IN
    IF errs # {} THEN Clause(e.out \in errs, "a query out of range is refused")
    ELSE Clause(e.out = "ok", "outcome of the query")
         \cup (IF e.out # "ok" THEN {}
               ELSE Clause(e.shape = <<Len(e.pts), Len(e.cols)>>, "shape of the answer")
                    \cup (IF e.shape # <<Len(e.pts), Len(e.cols)>> THEN {}
                          ELSE Clause(\A i \in 1..Len(e.pts) : \A j \in 1..Len(e.cols) :
                                        InsideGrid(fs[e.cols[j]], e.pts[i]) => e.vals[i][j] = Want(e, i, j), "values on the grid")
                               \cup Clause(\A i \in 1..Len(e.pts) : \A j \in 1..Len(e.cols) :
                                        ~InsideGrid(fs[e.cols[j]], e.pts[i]) => e.vals[i][j] = Want(e, i, j), "values off the grid")))
         \cup Clause(e.same, "the caller's points and the data are left alone")

\* a time axis fits when it has one time per slice; a single time fits any data, any data fit a single time
Misfit(e) == LET n == Len(fs[1].times) IN n # e.slices /\ (IF e.what = "time" THEN e.slices > 1 ELSE n > 1)

Bad(e) == IF e.ev = "at" THEN AtClauses(e)
          ELSE IF e.ev = "change" THEN Clause(e.out = "ok", "outcome of a change")
          ELSE IF e.ev = "misfit" THEN Clause(Misfit(e) => e.out = "err:ValueError", "times and slices that differ in number are refused")
          ELSE IF e.ev = "units" THEN
               Clause(e.out = "ok", "outcome of asking for the units")
               \cup (IF e.out # "ok" THEN {} ELSE Clause(e.got = [i \in 1..(Len(fs) + 1) |-> e.unit], "units of the vector and its components"))
          ELSE IF e.ev = "make" THEN Clause(e.out = "ok", "outcome of construction")
          ELSE {}

Init == l = 0 /\ fs = <<>>
Next == /\ l < Len(Log)
        /\ Judge(l + 1, Bad(Log[l + 1]))
        /\ fs' = NextFields(Log[l + 1])
        /\ l' = l + 1
        /\ (l' = Len(Log) => PrintT(<<"TRACE-DONE", l'>>))
Spec == Init /\ [][Next]_<<l, fs>>
=============================================================================
