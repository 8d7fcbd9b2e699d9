----------------------------- MODULE GridFileTrace ----------------------------
(* Judges the grids made of files, and the Datasets loaded from them.          *)
EXTENDS GridFile, TraceLib
VARIABLE l

SeqSet(s) == {s[i] : i \in DOMAIN s}
MyOf == [u |-> "MyU", s |-> "MyS", r |-> "MyR", err |-> ""]
GridOf == [u |-> "Grid_U", s |-> "Grid_S", r |-> "Grid_R", err |-> ""]
In(t, k) == IF k \in DOMAIN t THEN t[k] ELSE ""

\* expected label of the arrays of a location
ExpectPair(e, loc) ==
    LET H == SeqSet(e.have) IN
    CASE Source(e.c) = "convention" -> (IF loc = "node" THEN <<"conv_x", "conv_y">> ELSE <<"", "">>)
      [] Source(e.c) = "dict" -> (IF loc = "node" /\ e.c.nodes = "comp" THEN <<In(e.topo, "nodes"), In(e.topo, "nodes")>>
                                  ELSE <<In(e.topo, loc \o "_lon"), In(e.topo, loc \o "_lat")>>)
      [] OTHER -> IF loc = "node" THEN NodesByName(H) ELSE PairOf(loc, H)
ExpectMask(e, loc) ==
    LET H == SeqSet(e.have) IN
    IF Source(e.c) = "dict" THEN In(e.topo, loc \o "_mask") ELSE IF Source(e.c) = "names" THEN MaskByName(loc, H) ELSE ""
ExpectFaces(e) ==
    CASE Source(e.c) = "convention" -> "conv_f" [] Source(e.c) = "dict" -> In(e.topo, "faces") [] OTHER -> OneOf(FaceNames, SeqSet(e.have))

Got(o, loc) == <<o[loc \o "_lon"], o[loc \o "_lat"]>>
Arrays(e, o, k) ==
    Clause(Got(o, "node") = ExpectPair(e, "node"), "the nodes of the grid")
    \cup (IF k = "u" THEN Clause(o.faces = ExpectFaces(e), "the faces of the grid") ELSE {})
    \cup (IF k = "s" /\ Source(e.c) # "convention"
          THEN UNION {Clause(Got(o, loc) = ExpectPair(e, loc), "the " \o loc \o " coordinates of the grid") : loc \in Locs \ {"node"}}
               \cup UNION {Clause(o[loc \o "_mask"] = ExpectMask(e, loc), "the " \o loc \o " mask of the grid") : loc \in Locs}
          ELSE {})
\* the topology says which variables they are
Topology(e, o, k) ==
    CASE Source(e.c) = "dict" -> Clause(e.same, "the given topology is the grid's")
      [] Source(e.c) = "convention" -> Clause(o.role = (IF k = "u" THEN "mesh_topology" ELSE "grid_topology"), "the topology variable is the grid's topology")
      [] OTHER ->
           LET p == ExpectPair(e, "node") IN
           Clause(IF e.c.nodes = "comp" THEN o.gt.node_coordinates = p[1] ELSE Got(o.gt, "node") = p, "the topology names the nodes")
           \cup (IF k = "u" THEN Clause(o.gt.faces = ExpectFaces(e), "the topology names the faces") ELSE {})
           \cup (IF k = "s" THEN UNION {Clause(Got(o.gt, loc) = ExpectPair(e, loc) /\ o.gt[loc \o "_mask"] = ExpectMask(e, loc),
                                               "the topology names the " \o loc \o " variables") : loc \in Locs} ELSE {})

GridEv(e) ==
    LET k == Kind(e.c) IN
    IF ~Loads(e.c) THEN Clause(e.out = "err:ValueError", "a file without the grid that is wanted is refused")
    ELSE Clause(e.out = "ok", "outcome of making a grid")
         \cup (IF e.out # "ok" THEN {}
               ELSE Clause(e.o.cls = (IF e.want = "My" THEN MyOf ELSE GridOf)[k], "kind of grid")
                    \cup Arrays(e, e.o, k) \cup Topology(e, e.o, k))

(* Datasets: every variable that is on the grid, and nothing else              *)
Used(e) ==
    LET H == SeqSet(e.have)
        k == Kind(e.c)
        n == SeqSet(NodesByName(H))
    IN n \cup (IF k = "u" THEN {OneOf(FaceNames, H)} ELSE {})
         \cup (IF k = "s" THEN UNION {SeqSet(PairOf(loc, H)) : loc \in Locs} \cup {MaskByName(loc, H) : loc \in Locs} ELSE {})
Center(e) == Kind(e.c) = "r" \/ PairOf("center", SeqSet(e.have)) # <<"", "">>
Loc(e, v) == LocationOf(Kind(e.c), e.n, Center(e), PairOf("edge1", SeqSet(e.have)) # <<"", "">>, PairOf("edge2", SeqSet(e.have)) # <<"", "">>, v)
IsUsed(e, v) == v.canon # "" /\ v.canon \in Used(e)
Wanted(e) == {i \in DOMAIN e.vars : ~IsUsed(e, e.vars[i]) /\ Loc(e, e.vars[i]) # ""}
Corner(x, j, i) == LET a == x.sizes
                       ny == IF x.rev THEN LastOf(a, 0) ELSE LastOf(a, 1)
                       nx == IF x.rev THEN LastOf(a, 1) ELSE LastOf(a, 0)
                   IN x.mul * (IF x.rev THEN i * ny + j ELSE j * nx + i)
ValueOk(e, x) ==
    LET ny == e.n[1]  nx == e.n[2]
        off == IF Len(x.sizes) = 3 THEN e.hour * x.mul * ny * nx ELSE 0
    IN x.out = "ok" /\ Len(x.v) = (ny - 1) * (nx - 1)
       /\ \A p \in DOMAIN x.v : LET j == (p - 1) \div (nx - 1)  i == (p - 1) % (nx - 1)
                                IN x.v[p] = 4 * off + Corner(x, j, i) + Corner(x, j + 1, i) + Corner(x, j, i + 1) + Corner(x, j + 1, i + 1)
DataEv(e) ==
    Clause(e.out = "ok", "outcome of loading a Dataset")
    \cup (IF e.out # "ok" THEN {}
          ELSE LET keys == {e.res[i].key : i \in DOMAIN e.res}
                   want == {e.vars[i].key : i \in Wanted(e)}
               IN Clause(keys \subseteq want, "a variable of the Dataset is none of the grid's variables")
                  \cup Clause(want \subseteq keys, "every variable on the grid is in the Dataset")
                  \cup UNION {LET v == e.vars[i] IN
                              UNION {LET r == e.res[j] IN
                                     Clause(r.loc = Loc(e, v), "location of a variable")
                                     \cup Clause(r.name = (IF v.long = "" THEN v.key ELSE v.long) /\ r.varname = v.key, "names of a variable")
                                     \cup Clause(r.data, "values of a variable") \cup Clause(r.grid, "grid of a variable")
                                     : j \in {j \in DOMAIN e.res : e.res[j].key = v.key}} : i \in Wanted(e)}
                  \cup Clause(\A i \in DOMAIN e.vals : ValueOk(e, e.vals[i]), "interpolated values"))
Bad(e) == CASE e.ev = "grid" -> GridEv(e) [] e.ev = "dataset" -> DataEv(e)
Init == l = 0
Next == /\ l < Len(Log)
        /\ Judge(l + 1, Bad(Log[l + 1]))
        /\ l' = l + 1
        /\ (l' = Len(Log) => PrintT(<<"TRACE-DONE", l'>>))
Spec == Init /\ [][Next]_l
=============================================================================
