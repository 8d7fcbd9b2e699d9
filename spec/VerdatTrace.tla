------------------------------ MODULE VerdatTrace ------------------------------
(* Judges verdat files written and read.  Node k has coordinates and depth     *)
(* number k of tables known to the driver; whatever cannot be recognised is -1.*)
EXTENDS VerdatModel, TraceLib
VARIABLE l

NoE == {}
Segs(e) == Edges(e.segs)

Order(e) == Clause(e.out = "ok", "outcome of ordering boundary segments")
            \cup (IF e.out # "ok" THEN {}
                  ELSE Clause(LoopsOk(Segs(e), e.closed), "closed boundaries") \cup Clause(LinesOk(Segs(e), e.open), "open boundaries")
                       \cup Clause(e.same, "the caller's segments are left alone"))

FileOk(e, f) ==
    Clause(f.units = Header(e.unit), "units in the header")
    \cup Clause(PointsOk(e.n, f.pts), "every point once")
    \cup Clause(f.idx = [i \in 1..Len(f.idx) |-> i], "points numbered in order")
    \cup (IF ~PointsOk(e.n, f.pts) THEN {}
          ELSE Clause(\A i \in 1..e.n : f.deps[i] = IF e.nodepth THEN -1 ELSE e.dep[f.pts[i] + 1], "depth of a point")
               \cup Clause(f.nb = Len(f.ends) /\ EndsOk(e.n, f.ends), "ends of the boundaries")
               \cup (IF ~EndsOk(e.n, f.ends) THEN {}
                     ELSE Clause(LoopsOk(Segs(e), LoopsOf(f.pts, f.ends)), "closed boundaries come first, each in order")
                          \cup Clause(FieldOk(e.n, f.pts, f.ends), "the other points keep their order")))
\* what a reader must make of a file
ReadOk(f, o) ==
    Clause(o.pts = f.pts, "nodes read") \cup Clause(o.deps = f.deps, "depths read")
    \cup Clause(o.bounds = ReadBounds(f.ends, 1), "boundaries read")
    \cup Clause(o.units = f.runits, "units read") \cup Clause(o.loc = "node", "location of the depths")

Save(e) == Clause(e.out = "ok", "outcome of saving")
           \cup (IF e.out # "ok" THEN {} ELSE FileOk(e, e.f) \cup Clause(e.same, "saving leaves the dataset alone")
                 \cup Clause(e.rout = "ok", "outcome of reading what was saved")
                 \cup (IF e.rout = "ok" THEN ReadOk(e.f, e.o) ELSE {})
                 \* saving what was read gives the same file, boundary by boundary
                 \cup Clause(e.again, "saving what was read gives the same points, depths and boundaries"))
Load(e) == IF e.bad # "" THEN Clause(e.out = "err:ValueError", "a malformed file is refused")
           ELSE Clause(e.out = "ok", "outcome of reading") \cup (IF e.out = "ok" THEN ReadOk(e.f, e.o) ELSE {})

Bad(e) == CASE e.ev = "order" -> Order(e) [] e.ev = "save" -> Save(e) [] e.ev = "load" -> Load(e)
Init == l = 0
Next == /\ l < Len(Log)
        /\ Judge(l + 1, Bad(Log[l + 1]))
        /\ l' = l + 1
        /\ (l' = Len(Log) => PrintT(<<"TRACE-DONE", l'>>))
Spec == Init /\ [][Next]_l
=============================================================================
