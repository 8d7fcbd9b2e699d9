------------------------------- MODULE MasksTrace -----------------------------
(* Judges masks read from files and the cells of the grids that have them.     *)
EXTENDS Masks, TraceLib
VARIABLE l

\* values of the mask, row-major
ConvertEv(e) ==
    Clause(e.out = "ok", "outcome of converting a mask")
    \cup (IF e.out = "ok" THEN Clause(e.shape = e.gotshape /\ e.boolean, "a mask is booleans of the shape of its variable")
                               \cup Clause(Len(e.got) = Len(e.vals) /\ \A i \in DOMAIN e.vals : e.got[i] = Land(e.m, e.vals[i]), "land is masked and water is not")
          ELSE {})
Bools(e, which) == [j \in DOMAIN which.vals |-> [i \in DOMAIN which.vals[j] |-> Land(which, which.vals[j][i])]]
Free(e, j, i) ==
    IF e.center.style # "none" THEN ~CellOfCenter(Bools(e, e.center), e.pad, j, i)
    ELSE IF e.node.style # "none" THEN ~CellOfNodes(Bools(e, e.node), j, i) ELSE TRUE
Ny(e) == e.n[1] - 1
Nx(e) == e.n[2] - 1
Row(e, p) == ((p - 1) \div Nx(e)) + 1
Col(e, p) == ((p - 1) % Nx(e)) + 1
\* four times the value at the middle of a cell: the corners hold 10 y + x
Middle(e, p) == 40 * (Row(e, p) - 1) + 20 + 4 * (Col(e, p) - 1) + 2
CellsEv(e) ==
    Clause(e.out = "ok", "outcome of locating points")
    \cup (IF e.out # "ok" THEN {}
          ELSE LET P == 1 .. Ny(e) * Nx(e)
                   F(p) == ~e.use \/ Free(e, Row(e, p), Col(e, p))
               IN Clause(Len(e.found) = Ny(e) * Nx(e) /\ \A p \in P : e.found[p] = (IF F(p) THEN <<Row(e, p) - 1, Col(e, p) - 1>> ELSE <<-1, -1>>),
                         "points are found in cells of water only")
                  \cup (IF e.use THEN Clause(Len(e.at) = Ny(e) * Nx(e) /\ \A p \in P : IF F(p) THEN e.at[p] = <<Middle(e, p), 1>> ELSE e.at[p] = <<1, 0>>,
                                             "values in cells of water, none on land")
                        ELSE {}))
\* e.pts: cells by row and column (<<-1, -1>>: a place off the grid)
AskEv(e) ==
    Clause(e.out = "ok", "outcome of locating points")
    \cup (IF e.out # "ok" THEN {}
          ELSE LET with == InForce(e.built, e.u)
                   F(p) == p # <<-1, -1>> /\ (~with \/ Free(e, p[1] + 1, p[2] + 1))
               IN Clause(Len(e.found) = Len(e.pts) /\ \A i \in DOMAIN e.pts : e.found[i] = (IF F(e.pts[i]) THEN e.pts[i] ELSE <<-1, -1>>),
                         "points are found with or without the masks, as asked")
                  \cup Clause(e.same, "the points of the caller are left as they are"))
Bad(e) == CASE e.ev = "convert" -> ConvertEv(e) [] e.ev = "cells" -> CellsEv(e) [] e.ev = "ask" -> AskEv(e)
Init == l = 0
Next == /\ l < Len(Log)
        /\ Judge(l + 1, Bad(Log[l + 1]))
        /\ l' = l + 1
        /\ (l' = Len(Log) => PrintT(<<"TRACE-DONE", l'>>))
Spec == Init /\ [][Next]_l
=============================================================================
