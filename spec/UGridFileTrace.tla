---------------------------- MODULE UGridFileTrace ----------------------------
(* Judges meshes read from files and meshes saved and read back.               *)
(* Coordinates are logged as numbers of distinct doubles (exact or -999).      *)
EXTENDS UGridFile, TraceLib
VARIABLE l

Range(s) == {s[i] : i \in DOMAIN s}

\* one file: node k of the file has the coordinates 2k, 2k+1 of the table (longitude, latitude)
ReadNodes(n) == [k \in 1..n |-> <<2 * (k - 1), 2 * (k - 1) + 1>>]
Want(role, e) == LET s == e.conns[role] IN IF Len(s.a) = 0 THEN <<>> ELSE Decode(role, s, e.n)
Read(e) ==
    LET outs == IF e.lost # "" THEN {"err:ValueError"} ELSE CoordOutcomes(e.tells) IN
    Clause(e.out \in outs, "outcome of reading a mesh")
    \cup (IF e.out # "ok" \/ "ok" \notin outs THEN {}
          ELSE Clause(e.o.nodes = ReadNodes(e.n), "nodes read")
               \cup UNION {Clause(e.o[r] = Want(r, e), "connectivity read: " \o r) : r \in Roles}
               \cup Clause(e.o.fc = e.fc, "face coordinates read")
               \cup Clause(e.o.ec = e.ec, "edge coordinates read")
               \cup Clause(e.o.bc = e.bc, "boundary coordinates read"))

Pick(e) == LET V == Range(e.vars)  outs == PickOutcomes(V, e.asked) IN
    Clause(e.out \in outs, "outcome of choosing a mesh")
    \cup (IF e.out # "ok" \/ "ok" \notin outs THEN {}
          ELSE Clause(e.o.name = Picked(V, e.asked), "name of the mesh")
               \cup Clause(e.o.n = e.sizes[Picked(V, e.asked)], "the mesh chosen"))

Trip(e) ==
    Clause(e.out = "ok", "a mesh can be saved and read back")
    \cup (IF e.out # "ok" THEN {}
          ELSE UNION {Clause(e.o[f] = e.m[f], "kept by saving and reading: " \o f)
                      : f \in Roles \cup {"nodes", "fc", "ec", "bc", "name"}}
               \cup Clause(e.got = e.fmt, "format of the file")
               \cup Clause(e.refused = "err:ValueError", "a format that is none is refused")
               \cup Clause(e.same, "saving leaves the mesh as it was")
               \cup Clause(\A k \in 1..Len(e.eqs) : e.eqs[k].got = (e.eqs[k].kind = e.m.kind /\ SameMesh(e.m, e.eqs[k])),
                          "equality of meshes"))

Named(e) ==
    Clause(e.out = "ok", "outcome of reading a mesh by the names of its variables")
    \cup (IF e.out # "ok" THEN {}
          ELSE Clause(e.o.nodes = ReadNodes(e.n), "nodes read by name")
               \cup Clause(e.o.faces = NamedFaces(e.faces, e.n), "faces read by name"))

MappedFile(e) ==
    LET outs == IF e.attr \in {"none", "match"} THEN {"ok"} ELSE {} IN
    Clause(IF outs = {} THEN e.out # "ok" /\ (e.attr = "differs" => e.out = "err:ValueError") ELSE e.out = "ok",
           "outcome of reading a mesh by a mapping of names")
    \cup (IF e.out # "ok" \/ outs = {} THEN {}
          ELSE Clause(e.o.nodes = ReadNodes(e.n), "nodes read by mapping")
               \cup Clause(e.o.faces = Mapped(e.faces, e.faces), "faces read by mapping")
               \cup Clause(e.o.ff = Mapped(e.ff, e.faces), "face-face read by mapping")
               \cup Clause(e.o.bounds = MappedBounds(e.bounds, e.faces), "boundaries read by mapping")
               \cup Clause(e.o.fc = e.fc, "face coordinates read by mapping")
               \cup Clause(e.post = e.posted, "the caller's processing is done"))

Bad(e) == CASE e.ev = "read" -> Read(e)
            [] e.ev = "pick" -> Pick(e)
            [] e.ev = "trip" -> Trip(e)
            [] e.ev = "named" -> Named(e)
            [] e.ev = "mapped" -> MappedFile(e)

Init == l = 0
Next == /\ l < Len(Log)
        /\ Judge(l + 1, Bad(Log[l + 1]))
        /\ l' = l + 1
        /\ (l' = Len(Log) => PrintT(<<"TRACE-DONE", l'>>))
Spec == Init /\ [][Next]_l
=============================================================================
