--------------------------------- MODULE Plot ---------------------------------
(* What is drawn of a grid and what is picked on the drawing.                  *)
(* The mesh of a file lies at the places nodes[k] + <<off, 0>>; a drawing of a *)
(* file shows longitudes between -180 and 180.  Points are in quarters.        *)
EXTENDS MeshModel

ShownLon(x) == IF x > 180 THEN x - 360 ELSE x
Shown(nodes, off) == [k \in DOMAIN nodes |-> <<ShownLon(nodes[k][1] + off), nodes[k][2]>>]
\* the place in the file of a place on the map
InFile(nodes, off, p) == IF (\A k \in DOMAIN nodes : nodes[k][1] + off >= 0) /\ p[1] < 0 THEN <<p[1] + 1440, p[2]>> ELSE p
Stored(nodes, off) == [k \in DOMAIN nodes |-> <<nodes[k][1] + off, nodes[k][2]>>]
\* the mesh does not go across the seam of the map
OneSided(nodes, off) == LET X == {nodes[k][1] + off : k \in DOMAIN nodes}
                        IN (\A x \in X : x <= 180 /\ x >= -180) \/ (\A x \in X : x > 180 /\ x <= 360)

Place(nodes, i) == <<R(nodes[i + 1][1]), R(nodes[i + 1][2])>>
\* the lines of a mesh: pairs of places
Lines(nodes, E) == {{Place(nodes, i) : i \in e} : e \in E}
Low(S) == Min(S)
High(S) == Max(S)
\* the box around the mesh with a margin of m hundredths of its size: west, east, south, north
Extent(nodes, m) ==
    LET X == {nodes[k][1] : k \in DOMAIN nodes}  Y == {nodes[k][2] : k \in DOMAIN nodes}
        w(S) == Frac((Max(S) - Min(S)) * m, 100)
    IN <<RSub(R(Min(X)), w(X)), RAdd(R(Max(X)), w(X)), RSub(R(Min(Y)), w(Y)), RAdd(R(Max(Y)), w(Y))>>

(* ---- the viewer: what was picked so far, and the cell shown (-1: none) ---- *)
Fresh == [rows |-> <<>>, shown |-> -1]
\* what an event on the drawing may lead to: a left click inside of a cell picks it, everything else does nothing
After(nodes, faces, v, c) ==
    IF c.k = "reopen" THEN {Fresh}
    ELSE IF c.button # 1 \/ c.k = "margin" THEN {v}
    ELSE (IF LocateOk(nodes, faces, c.p, -1) THEN {v} ELSE {})
         \cup {[rows |-> Append(v.rows, i - 1), shown |-> i - 1] : i \in Holders(nodes, faces, c.p)}
\* the corners of a cell: number and place
Corners(nodes, faces, i) == {<<f, Place(nodes, f)>> : f \in {faces[i + 1][j] : j \in 1..Len(faces[i + 1])}}
=============================================================================
