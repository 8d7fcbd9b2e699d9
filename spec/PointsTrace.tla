------------------------------ MODULE PointsTrace -----------------------------
(* Judges queries of real variables and grids with points in every layout.     *)
EXTENDS Points, TraceLib
VARIABLE l

\* coordinates in quarters; eight times the value at hour t of a field that is linear in space and time (slices at hours 0 and 2)
At(f, p, deep) == 4 * f[1] + f[2] * p[1] + f[3] * p[2] + (IF deep THEN f[4] * p[3] ELSE 0)
Eight(f, p, deep, t) == IF Len(f) = 1 THEN 2 * At(f[1], p, deep) ELSE (2 - t) * At(f[1], p, deep) + t * At(f[2], p, deep)
Inside(e, p) == p[1] > 0 /\ p[1] < 12 /\ p[2] > 0 /\ p[2] < 8
ValueOk(e, i, p, m) == IF Inside(e, p) THEN e.vals[i][m] = <<Eight(e.fs[m], p, e.deep, e.t), 1>> ELSE e.vals[i][m] = e.ref[m]
AtEv(e) ==
    LET N == Norm(e.shape, e.flat) IN
    Clause(e.same, "the caller's points are as they were")
    \cup (IF N = Err THEN Clause(e.out # "ok", "what is no layout of points is refused")
          ELSE Clause(e.out = "ok", "outcome of a query")
               \cup (IF e.out # "ok" THEN {}
                     ELSE Clause(e.got = <<Len(N), Len(e.fs)>>, "one row of values for each point")
                          \cup (IF e.got # <<Len(N), Len(e.fs)>> THEN {}
                                ELSE Clause(\A i \in DOMAIN N : \A m \in DOMAIN e.fs : ValueOk(e, i, N[i], m), "values of the points in order"))))
\* what a grid answers for many points it answers for each of them
EachEv(e) ==
    Clause(e.out = "ok" /\ e.n = Len(e.all) /\ Len(e.one) = e.n, "one answer for each point")
    \cup (IF e.out = "ok" /\ Len(e.all) = Len(e.one) THEN Clause(e.all = e.one, "the answer for a point does not depend on the others") ELSE {})
Bad(e) == CASE e.ev = "at" -> AtEv(e) [] e.ev = "each" -> EachEv(e) [] e.ev = "make" -> Clause(e.out = "ok", "making a variable")
Init == l = 0
Next == /\ l < Len(Log)
        /\ Judge(l + 1, Bad(Log[l + 1]))
        /\ l' = l + 1
        /\ (l' = Len(Log) => PrintT(<<"TRACE-DONE", l'>>))
Spec == Init /\ [][Next]_l
=============================================================================
