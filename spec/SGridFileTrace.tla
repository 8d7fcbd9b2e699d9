---------------------------- MODULE SGridFileTrace ----------------------------
(* Judges staggered grids read from files, saved and read back.                *)
EXTENDS SGridFile, TraceLib
VARIABLE l

Label(loc, w) == loc \o "_" \o w
Both(c, loc) == IF Known(c, loc) THEN <<Label(loc, "x"), Label(loc, "y")>> ELSE <<"none", "none">>
PadPair(c, loc) == IF PadAxis(c, loc) = 1 THEN <<PadOn(c, loc, 1), "no">> ELSE <<"no", PadOn(c, loc, 2)>>
MaskOk(e, o, loc) ==
    LET c == e.c  got == o[loc \o "M"]  i == First(e.masks, loc)
    IN IF ~Known(c, loc) THEN got = 0
       ELSE IF i # 0 THEN got = i
       ELSE IF Alike(c, e.masks, loc) = {} THEN got = 0 ELSE got \in {0} \cup Alike(c, e.masks, loc)
HasNode(v) == v.loc = "node"
GridVars(e) == {e.vars[i].name : i \in {j \in DOMAIN e.vars : e.vars[j].grid}}
SeqSet(s) == {s[i] : i \in DOMAIN s}

VarOk(e, v, x, filled) ==
    LET c == e.c IN
    Clause(x.dims, "dimensions of a variable")
    \* a vertical padding applies to variables on faces and edges
    \cup Clause((c.vert = "low" /\ (HasNode(v) \/ c.es # "own") /\ "ku" \in SeqSet(v.lead)) \/ x.cut = VarCut(c, v), "slices to the cells")
    \cup Clause(x.loc \in Location(c, v), "location of a variable")
    \cup (IF IsEdge(v.loc) /\ v.grid THEN Clause(x.ax = <<AvgAxis(c, v), 1 - AvgAxis(c, v)>>, "axes to average along") ELSE {})
    \cup (IF filled /\ IsEdge(v.loc) /\ v.grid THEN Clause(x.means = Means(c, v), "values averaged to the cells") ELSE {})
    \cup Clause(x.axes = (IF v.axes = <<>> THEN <<"", "", "">> ELSE v.axes), "axes of a variable")
    \cup Clause(x.vec = v.vec /\ x.std = v.std, "component and standard name of a variable")
    \cup Clause(x.coords = v.coords, "coordinates of a variable")

GridOk(e, o, filled) ==
    LET c == e.c IN
    UNION {Clause(o[loc] = Both(c, loc), "coordinates of the " \o loc \o " points") : loc \in Locs}
    \cup UNION {Clause(o[loc \o "N"] = Both(c, loc), "names of the coordinates of the " \o loc \o " points") : loc \in Locs}
    \cup UNION {Clause(MaskOk(e, o, loc), "mask of the " \o loc \o " points") : loc \in Locs}
    \* (without coordinates the axes of the arrays are not known)
    \cup Clause(o.pad = c.pad \/ c.facec = "none", "padding of the faces")
    \cup (IF c.ord = "f" /\ c.es # "none" THEN Clause(o.e1pad = PadPair(c, "edge1") /\ o.e2pad = PadPair(c, "edge2"), "padding of the edges") ELSE {})
    \cup Clause(e.angle => o.angle = "angle", "angle")
    \cup Clause(o.top = "grid" /\ o.nd = e.nd, "topology variable and node dimensions")
    \cup Clause(SeqSet(o.dims) = SeqSet(e.wdims), "dimensions of the file")
    \cup Clause(SeqSet(o.gridvars) = GridVars(e), "variables on the grid")
    \cup UNION {VarOk(e, e.vars[i], o.vars[i], filled) : i \in DOMAIN e.vars}

File(e) ==
    IF e.bad # "" THEN Clause(e.out = "err:ValueError", "a file that declares no grid of two dimensions, or several, is refused")
    ELSE Clause(e.out = "ok", "outcome of reading")
         \cup (IF e.out # "ok" THEN {}
               ELSE GridOk(e, e.o, TRUE)
                    \cup Clause(e.sout = "ok", "outcome of saving")
                    \cup (IF e.sout # "ok" THEN {}
                          ELSE Clause(e.lout = "ok", "outcome of reading what was saved")
                               \cup (IF e.lout = "ok" THEN {x \o " (saved)" : x \in GridOk(e, e.o2, FALSE)}
                                          \cup Clause(\A i \in DOMAIN e.eqs : LET q == e.eqs[i] IN
                                                         q[2] = (q[1] = "same") /\ q[3] = q[2], "equality of grids") ELSE {})))

RECURSIVE Steps(_, _, _)
Steps(a, b, s) == IF a >= b THEN <<>> ELSE <<a>> \o Steps(a + s, b, s)
Idx(r) == IF r.k \in {"array", "list"} THEN r.want ELSE IF r.k = "slice" THEN Steps(r.a, r.b, r.s) ELSE <<r.a>>
Index(e) == Clause(\A i \in DOMAIN e.res : e.res[i].out = "ok" /\ e.res[i].got = Idx(e.res[i]), "values at an index")

MaskedN == -100000000
Rotate(e) ==
    LET a == e.tri[1]  b == e.tri[2]  h == e.tri[3] IN
    Clause(e.out = "ok" /\ e.sout = "ok", "outcome of rotating vectors")
    \cup (IF e.out # "ok" \/ e.sout # "ok" THEN {}
          ELSE Clause(\A i \in DOMAIN e.xy : LET x == e.xy[i][1]  y == e.xy[i][2] IN
                         IF e.m[i] THEN e.rx[i] = MaskedN /\ e.ry[i] = MaskedN
                         ELSE e.rx[i] = x * a - y * b /\ e.ry[i] = x * b + y * a, "rotated vectors")
               \cup Clause(\A i \in DOMAIN e.xy : e.s[i] = IF e.m[i] THEN MaskedN ELSE (e.xy[i][1] * e.xy[i][1] + e.xy[i][2] * e.xy[i][2]) * 1000,
                           "lengths of vectors"))

Bad(e) == CASE e.ev = "file" -> File(e)
            [] e.ev = "index" -> Index(e)
            [] e.ev = "vec" -> Clause(e.out = "ok" /\ e.got = e.want, "parsed component of a vector")
            [] e.ev \in {"padding", "axes"} -> (IF e.want = <<>> THEN Clause(e.out = "err:ValueError", "a text without paddings is refused")
                                                       ELSE Clause(e.out = "ok" /\ e.got = e.want, "parsed " \o e.ev))
            [] e.ev = "rotate" -> Rotate(e)
Init == l = 0
Next == /\ l < Len(Log)
        /\ Judge(l + 1, Bad(Log[l + 1]))
        /\ l' = l + 1
        /\ (l' = Len(Log) => PrintT(<<"TRACE-DONE", l'>>))
Spec == Init /\ [][Next]_l
=============================================================================
