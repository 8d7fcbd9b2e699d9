------------------------------- MODULE PlotTrace -------------------------------
(* Judges drawings of grids, and what was picked on them.                      *)
EXTENDS Plot, TraceLib
VARIABLE l

Ran(s) == {s[i] : i \in DOMAIN s}
Pairs(s) == {{x[1], x[2]} : x \in Ran(s)}
Quart(p) == <<Frac(p[1], 4), Frac(p[2], 4)>>
In(lims, q) == RLe(lims[1], q[1]) /\ RLe(q[1], lims[2]) /\ RLe(lims[3], q[2]) /\ RLe(q[2], lims[4])

UGridEv(e) ==
    LET all == {Place(e.nodes, k - 1) : k \in DOMAIN e.nodes}
        rim == {{b[1], b[2]} : b \in Ran(e.bounds)}
        at(i) == IF e.fcoord # <<>> THEN Quart(e.fcoord[i]) ELSE Mean(e.nodes, e.faces[i])
    IN Clause(e.out = "ok", "outcome of drawing a mesh")
       \cup (IF e.out # "ok" THEN {}
             ELSE Clause(Pairs(e.segs) = Lines(e.nodes, EdgeSet(e.faces) \cup rim), "the lines drawn are the edges and the boundaries")
                  \cup Clause(Ran(e.marks) = (IF e.dots THEN all ELSE {}), "dots at the nodes when asked for")
                  \cup Clause(Ran(e.texts) = (IF e.nnum THEN {<<k - 1, Place(e.nodes, k - 1)>> : k \in DOMAIN e.nodes} ELSE {})
                                             \cup (IF e.fnum THEN {<<i - 1, at(i)>> : i \in DOMAIN e.faces} ELSE {}), "numbers at the nodes and faces when asked for")
                  \cup Clause(\A q \in UNION Lines(e.nodes, EdgeSet(e.faces)) : In(e.lims, q), "the drawing shows all of the mesh"))

Table(a, b) == IF a = <<>> THEN {} ELSE UNION {{<<R(a[i][j]), R(b[i][j])>> : j \in DOMAIN a[i]} : i \in DOMAIN a}
At(e, i, j) == <<R(e.lon[i][j]), R(e.lat[i][j])>>
GridLines(e) == LET M == Len(e.lon)  N == Len(e.lon[1]) IN
    {{At(e, i, j), At(e, i, j + 1)} : i \in 1..M, j \in 1..(N - 1)} \cup {{At(e, i, j), At(e, i + 1, j)} : i \in 1..(M - 1), j \in 1..N}
SGridEv(e) ==
    Clause(e.out = "ok", "outcome of drawing a grid")
    \cup (IF e.out # "ok" THEN {}
          ELSE Clause(Pairs(e.segs) = GridLines(e), "the lines drawn are the rows and columns of nodes")
               \cup Clause(Ran(e.marks) = (IF e.dots THEN Table(e.lon, e.lat) ELSE {}) \cup (IF e.rho THEN Table(e.clon, e.clat) ELSE {})
                                          \cup (IF e.edge THEN Table(e.alon, e.alat) \cup Table(e.blon, e.blat) ELSE {}), "dots at the nodes, centers and edges when asked for")
               \cup Clause(\A q \in Table(e.lon, e.lat) : In(e.lims, q), "the drawing shows all of the grid"))

\* a query of the cell at a place (the mesh of a file with longitudes of 0 to 360 may go across the seam)
Asked(e, shown, q) ==
    LET nodes == Stored(e.nodes, e.off)  p == InFile(e.nodes, e.off, q.p) IN
    IF q.nele = -1 THEN LocateOk(nodes, e.faces, p, -1)
    ELSE /\ (q.nele + 1) \in Holders(nodes, e.faces, p)
         /\ Len(q.corners) = Len(e.faces[q.nele + 1]) /\ Ran(q.corners) = Corners(shown, e.faces, q.nele)
         /\ q.click = Quart(q.p)
GeoEv(e) ==
    LET nodes == Shown(e.nodes, e.off) IN
    Clause(e.out = "ok", "outcome of opening a file")
    \cup (IF e.out # "ok" THEN {}
          ELSE Clause(e.tri = e.faces, "triangles of the file")
               \cup Clause(\A i \in DOMAIN e.q : Asked(e, nodes, e.q[i]), "the cell at a place, its nodes and their places")
               \cup (IF ~OneSided(e.nodes, e.off) THEN {}
                     ELSE Clause(Pairs(e.lines) = Lines(nodes, EdgeSet(e.faces)) /\ Len(e.lines) = Cardinality(EdgeSet(e.faces)), "each edge of the mesh once")
                          \cup Clause(Pairs(e.segs) = Lines(nodes, EdgeSet(e.faces)), "the lines drawn are the edges")
                          \cup Clause(e.extent = Extent(nodes, e.m), "the box around the mesh")))

\* what is seen of the viewer: rows of the log, outlines on the drawing, labels of nodes
RowOk(nodes, faces, r, i) ==
    /\ r.nele = i
    /\ r.center = Mean(nodes, faces[i + 1])
    /\ Len(r.corners) = Len(faces[i + 1]) /\ Ran(r.corners) = Corners(nodes, faces, i)
Seen(nodes, faces, v, o) ==
    /\ o.head /\ Len(o.rows) = Len(v.rows)
    /\ \A k \in DOMAIN v.rows : RowOk(nodes, faces, o.rows[k], v.rows[k])
    /\ IF v.shown = -1 THEN o.patches = <<>> /\ o.labels = <<>>
       ELSE /\ Len(o.patches) = 1 /\ Ran(o.patches[1]) = {c[2] : c \in Corners(nodes, faces, v.shown)}
            /\ Len(o.labels) = Len(faces[1]) /\ Ran(o.labels) = Corners(nodes, faces, v.shown)
RECURSIVE Walk(_, _, _, _, _)
Walk(nodes, faces, steps, v, k) ==
    IF k > Len(steps) THEN {}
    ELSE LET s == steps[k]
             W == {w \in After(nodes, faces, v, s.c) : s.out = "ok" /\ Seen(nodes, faces, w, s.o)}
         IN IF W = {} THEN {"the log and the highlight follow the clicks"}
            ELSE Walk(nodes, faces, steps, CHOOSE w \in W : TRUE, k + 1)
ViewerEv(e) ==
    LET nodes == Shown(e.nodes, e.off) IN
    Clause(e.out = "ok", "outcome of opening the viewer")
    \cup (IF e.out # "ok" THEN {}
          ELSE Clause(Seen(nodes, e.faces, Fresh, e.first), "a fresh viewer has an empty log and shows no cell")
               \cup Clause(e.path, "the log lies beside the file")
               \cup Clause(Pairs(e.segs) = Lines(nodes, EdgeSet(e.faces)), "the lines drawn are the edges")
               \cup Clause(\A k \in DOMAIN nodes : In(e.lims, Place(nodes, k - 1)), "the drawing shows all of the mesh")
               \cup Clause(e.spill = <<>> \/ Quart(e.spill) \in Ran(e.stars), "the place of the spill is marked")
               \cup Walk(nodes, e.faces, e.steps, Fresh, 1))
Bad(e) == CASE e.ev = "ugrid" -> UGridEv(e) [] e.ev = "sgrid" -> SGridEv(e) [] e.ev = "geo" -> GeoEv(e) [] e.ev = "viewer" -> ViewerEv(e)
Init == l = 0
Next == /\ l < Len(Log)
        /\ Judge(l + 1, Bad(Log[l + 1]))
        /\ l' = l + 1
        /\ (l' = Len(Log) => PrintT(<<"TRACE-DONE", l'>>))
Spec == Init /\ [][Next]_l
=============================================================================
