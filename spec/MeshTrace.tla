------------------------------- MODULE MeshTrace -------------------------------
(* Judges recorded calls on real unstructured grids.  The state is the mesh   *)
(* as last set by the caller; a query must answer for that mesh.              *)
EXTENDS MeshModel, TraceLib
VARIABLES l, nodes, faces

Shape(e, rest) == Clause(e.shape = e.wantshape, "shape of the answer") \cup (IF e.shape # e.wantshape THEN {} ELSE rest)
Ok(e, rest) == Clause(e.out = "ok", "outcome") \cup (IF e.out # "ok" THEN {} ELSE rest)
Pair(x) == {x[1], x[2]}

LocateClauses(e) == Ok(e, Shape(e, Clause(\A k \in 1..Len(e.pts) : LocateOk(nodes, faces, e.pts[k], e.idx[k]), "face of the point")))
InterpClauses(e) ==
    LET Miss == {e.miss[i] : i \in 1..Len(e.miss)}
        \* faces that have missing data, or nodes with missing data
        Lacks(i) == IF e.loc = "face" THEN (i - 1) \in Miss ELSE \E j \in 1..Len(faces[i]) : faces[i][j] \in Miss
        H(k) == Holders(nodes, faces, e.pts[k])
    IN
    Ok(e, Shape(e, Clause(\A k \in 1..Len(e.pts) : (H(k) # {} /\ \A i \in H(k) : ~Lacks(i)) =>
                             e.vals[k] \in Values(nodes, faces, e.loc, e.data, e.pts[k]), "value on the mesh")
              \cup Clause(\A k \in 1..Len(e.pts) : (e.loc = "face" /\ H(k) # {} /\ (\A i \in H(k) : Lacks(i)) /\ ~LocateOk(nodes, faces, e.pts[k], -1)) =>
                             e.vals[k] = e.mark, "missing data stay missing")
              \cup Clause(\A k \in 1..Len(e.pts) : Holders(nodes, faces, e.pts[k]) = {} => e.vals[k] = RZero, "value off the mesh")))
AlphaClauses(e) ==
    Ok(e, Shape(e, Clause(\A k \in 1..Len(e.pts) :
              \/ \E i \in Holders(nodes, faces, e.pts[k]) : e.vals[k] = Bary(nodes, faces[i], e.pts[k])
              \/ LocateOk(nodes, faces, e.pts[k], -1) /\ e.vals[k] = <<RZero, RZero, RZero>>, "weights of the corners")))
NearestClauses(e) == Ok(e, Shape(e, Clause(\A k \in 1..Len(e.pts) : NearestOk(nodes, e.pts[k], e.idx[k]), "nearest node")))

\* every edge exactly once, whichever way round and in whatever order
SameEdges(got, want) == Len(got) = Cardinality(want) /\ {Pair(got[k]) : k \in 1..Len(got)} = want
TopoClauses(e) ==
    Ok(e, Clause(SameEdges(e.edges, EdgeSet(faces)), "edges")
          \cup Clause(SameEdges(e.bounds, BoundarySet(faces)), "boundaries")
          \cup Clause(Len(e.ff) = Len(faces) /\ \A i \in 1..Len(faces) : Len(e.ff[i]) = Len(faces[i])
                        /\ \A j \in 1..Len(faces[i]) : e.ff[i][j] = Neighbour(faces, i, j), "neighbours of the faces")
          \cup Clause(Len(e.fe) = Len(faces) /\ \A i \in 1..Len(faces) : Len(e.fe[i]) = Len(faces[i])
                        /\ \A j \in 1..Len(faces[i]) : (e.fe[i][j] + 1) \in 1..Len(e.edges)
                                                        /\ Pair(e.edges[e.fe[i][j] + 1]) = Side(faces[i], j), "edges of the faces")
          \cup Clause(e.fcoord = [i \in 1..Len(faces) |-> Mean(nodes, faces[i])], "face coordinates")
          \cup Clause(e.ecoord = [i \in 1..Len(e.edges) |-> Mean(nodes, e.edges[i])], "edge coordinates")
          \cup Clause(e.bcoord = [i \in 1..Len(e.bounds) |-> Mean(nodes, e.bounds[i])], "boundary coordinates")
          \cup Clause(e.lines = [i \in 1..Len(e.edges) |-> <<nodes[e.edges[i][1] + 1], nodes[e.edges[i][2] + 1]>>], "line segments"))

\* after the edges changed: the stored edges of the faces are gone or are those of the new edges
EdgesClauses(e) ==
    Ok(e, Clause(CASE e.how \in {"set", "list"} -> e.edges = e.want
                   [] e.how = "build" -> SameEdges(e.edges, EdgeSet(faces))
                   [] OTHER -> e.edges = <<>>, "edges as set")
          \cup Clause(e.fe = <<>> \/ (Len(e.fe) = Len(faces) /\ \A i \in 1..Len(faces) : Len(e.fe[i]) = Len(faces[i])
                        /\ \A j \in 1..Len(faces[i]) : (e.fe[i][j] + 1) \in 1..Len(e.edges)
                                                        /\ Pair(e.edges[e.fe[i][j] + 1]) = Side(faces[i], j)), "edges of the faces after the edges changed"))

\* what the mesh still knows of its faces and edges is of its current faces
KeptClauses(e, f) ==
    LET k == e.kept IN
    Clause(k.ff = <<>> \/ (Len(k.ff) = Len(f) /\ \A i \in 1..Len(f) : Len(k.ff[i]) = Len(f[i])
               /\ \A j \in 1..Len(f[i]) : k.ff[i][j] = Neighbour(f, i, j)), "neighbours kept are of the current faces")
    \cup Clause(k.fe = <<>> \/ (Len(k.fe) = Len(f) /\ \A i \in 1..Len(f) : Len(k.fe[i]) = Len(f[i])
               /\ \A j \in 1..Len(f[i]) : (k.fe[i][j] + 1) \in 1..Len(k.edges)
                                               /\ Pair(k.edges[k.fe[i][j] + 1]) = Side(f[i], j)), "edges kept are of the current faces")
GoneClauses(e) ==
    Clause(e.out # "ok", "a search without faces is refused")
    \cup Clause(e.kept.faces = <<>>, "faces deleted")
    \cup KeptClauses(e, <<>>)
    \cup (IF e.what = "nodes" THEN Clause(e.left = <<0>> /\ e.kept.edges = <<>> /\ e.kept.bounds = <<>>, "nothing is left without nodes") ELSE {})

MakeWant(e) == IF e.faces = <<>> THEN "ok" ELSE FacesOutcome(Len(e.nodes), e.faces)
MakeClauses(e) ==
    LET want == MakeWant(e) IN
    Clause(e.out = want, "faces that cannot be numbered are refused")
    \cup (IF e.out = "ok" /\ want = "ok" /\ e.faces # <<>>
          THEN Clause(e.got = Numbered(Len(e.nodes), e.faces), "faces of the mesh") \cup Clause(e.gotnodes = e.nodes, "nodes of the mesh")
               \cup KeptClauses(e, Numbered(Len(e.nodes), e.faces)) ELSE {})

Bad(e) ==
    (CASE e.ev = "make" -> MakeClauses(e)
       [] e.ev = "locate" -> LocateClauses(e)
       [] e.ev = "interp" -> InterpClauses(e)
       [] e.ev = "alphas" -> AlphaClauses(e)
       [] e.ev = "nearest" -> NearestClauses(e)
       [] e.ev = "topo" -> TopoClauses(e)
       [] e.ev = "edges" -> EdgesClauses(e)
       [] e.ev = "infer" -> Clause(e.out = "ok" /\ e.loc = Location(Len(nodes), Len(faces), e.nb, e.size), "location of the data")
       [] e.ev = "gone" -> GoneClauses(e)
       [] OTHER -> {})
    \cup Clause(e.same, "the caller's arrays are left alone")

Init == l = 0 /\ nodes = <<>> /\ faces = <<>>
Next == /\ l < Len(Log)
        /\ LET e == Log[l + 1] IN
             /\ Judge(l + 1, Bad(e))
             /\ nodes' = IF e.ev = "make" /\ e.out = "ok" THEN e.nodes ELSE nodes
             /\ faces' = IF e.ev = "make" /\ e.out = "ok" /\ MakeWant(e) = "ok" /\ e.faces # <<>> THEN Numbered(Len(e.nodes), e.faces) ELSE faces
        /\ l' = l + 1
        /\ (l' = Len(Log) => PrintT(<<"TRACE-DONE", l'>>))
Spec == Init /\ [][Next]_<<l, nodes, faces>>
=============================================================================
