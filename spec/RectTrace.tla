------------------------------- MODULE RectTrace -------------------------------
(* Judges recorded calls on real rectangular grids.                           *)
EXTENDS RectModel, TraceLib
VARIABLE l

\* data as given by the caller: when stored (lon, lat) the model's matrix is its transpose
Matrix(e) == IF e.order = "latlon" THEN e.data
             ELSE [j \in 1..Len(e.g.lats) |-> [i \in 1..Len(e.g.lons) |-> e.data[i][j]]]
InterpClauses(e) ==
    LET want == OrientOutcome(e.g, e.dims, e.shape2) IN
    IF want # "ok" THEN Clause(e.out = want, "data that does not fit is refused")
    ELSE Clause(e.out = "ok", "outcome")
         \cup (IF e.out # "ok" THEN {}
               ELSE Clause(e.shape = e.wantshape, "shape of the answer")
                 \cup (IF e.shape # e.wantshape THEN {}
                       ELSE Clause(\A k \in 1..Len(e.pts) : OnGrid(e.g, e.pts[k]) =>
                                      e.vals[k] = RectValue(e.g, Matrix(e), e.pts[k]), "value on the grid")
                         \cup Clause(\A k \in 1..Len(e.pts) : ~OnGrid(e.g, e.pts[k]) => e.vals[k] = RZero, "value off the grid")))
LocateClauses(e) ==
    Clause(e.out = "ok", "outcome")
    \cup (IF e.out # "ok" THEN {}
          ELSE Clause(e.shape = e.wantshape, "shape of the answer")
            \cup (IF e.shape # e.wantshape THEN {}
                  ELSE Clause(\A k \in 1..Len(e.pts) : LocateOk(e.g, e.pts[k], e.idx[k]), "cell of the point")))
Half(ax) == [i \in 1..(Len(ax) - 1) |-> Frac(ax[i] + ax[i + 1], 2)]
Bad(e) ==
    (CASE e.ev = "interp" -> InterpClauses(e)
       [] e.ev = "locate" -> LocateClauses(e)
       [] e.ev = "centers" -> Clause(e.out = "ok" /\ e.clon = Half(e.g.lons) /\ e.clat = Half(e.g.lats), "cell centers")
                              \cup Clause(e.out = "ok" /\ e.nodes = [j \in 1..Len(e.g.lats) |-> [i \in 1..Len(e.g.lons) |-> <<R(e.g.lons[i]), R(e.g.lats[j])>>]], "nodes")
       [] e.ev = "infer" -> Clause(e.out = "ok" /\ e.loc = Location(e.g, e.shape2), "location of the data")
       [] OTHER -> {})
    \cup Clause(e.same, "the caller's arrays are left alone")
Init == l = 0
Next == /\ l < Len(Log)
        /\ Judge(l + 1, Bad(Log[l + 1]))
        /\ l' = l + 1
        /\ (l' = Len(Log) => PrintT(<<"TRACE-DONE", l'>>))
Spec == Init /\ [][Next]_l
=============================================================================
