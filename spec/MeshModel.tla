------------------------------- MODULE MeshModel -------------------------------
(* Unstructured meshes: nodes are points with integer coordinates, faces are  *)
(* sequences of node numbers (0-based), of length 3 or 4 (or both in one mesh).*)
(* Query points are given in quarters: <<4x, 4y>>.                            *)
EXTENDS Rat, FiniteSets

(* ---- numbering of the faces ---- *)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Used(faces) == UNION {{faces[i][j] : j \in 1..Len(faces[i])} : i \in 1..Len(faces)}
\* one-based numbers are recognised when the largest number is that of nodes and none is below one
FacesOutcome(n, faces) ==
    LET mx == Max(Used(faces))  mn == Min(Used(faces)) IN
    IF mx > n THEN "err:ValueError"
    ELSE IF mx = n /\ mn < 1 THEN "err:ValueError"
    ELSE IF mn < -1 THEN "err:ValueError"
    ELSE "ok"
Numbered(n, faces) == IF Max(Used(faces)) = n THEN [i \in 1..Len(faces) |-> [j \in 1..Len(faces[i]) |-> faces[i][j] - 1]]
                      ELSE faces

(* ---- topology ---- *)
Next1(f, j) == IF j = Len(f) THEN 1 ELSE j + 1
Side(f, j) == {f[j], f[Next1(f, j)]}
Sides(f) == {Side(f, j) : j \in 1..Len(f)}
EdgeSet(faces) == UNION {Sides(faces[i]) : i \in 1..Len(faces)}
FacesAt(faces, e) == {i \in 1..Len(faces) : e \in Sides(faces[i])}
BoundarySet(faces) == {e \in EdgeSet(faces) : Cardinality(FacesAt(faces, e)) = 1}
Manifold(faces) == \A e \in EdgeSet(faces) : Cardinality(FacesAt(faces, e)) <= 2
\* the face on the other side of side j of face i (0-based), or -1
Neighbour(faces, i, j) == LET o == FacesAt(faces, Side(faces[i], j)) \ {i}
                          IN IF o = {} THEN -1 ELSE (CHOOSE x \in o : TRUE) - 1
Mean(nodes, ids) == \* ids: a sequence of 0-based node numbers
    <<Frac(RSumSeq([k \in 1..Len(ids) |-> R(nodes[ids[k] + 1][1])])[1], Len(ids)),
      Frac(RSumSeq([k \in 1..Len(ids) |-> R(nodes[ids[k] + 1][2])])[1], Len(ids))>>

(* ---- where is a point ---- *)
\* cross product of (b - a) and (p - a), p in quarters: twice the signed area, times 4
Cross(a, b, p) == (b[1] - a[1]) * (p[2] - 4 * a[2]) - (b[2] - a[2]) * (p[1] - 4 * a[1])
Corner(nodes, f, j) == nodes[f[j] + 1]
\* convex faces, either way round: all the cross products have one sign (or are zero)
InFace(nodes, f, p) ==
    LET s == {Cross(Corner(nodes, f, j), Corner(nodes, f, Next1(f, j)), p) : j \in 1..Len(f)}
    IN (\A x \in s : x >= 0) \/ (\A x \in s : x <= 0)
Holders(nodes, faces, p) == {i \in 1..Len(faces) : InFace(nodes, faces[i], p)}
\* on the segment between two nodes
OnSide(nodes, e, p) ==
    \E u \in e : \E v \in e \ {u} : LET a == nodes[u + 1]  b == nodes[v + 1] IN
        Cross(a, b, p) = 0 /\ (p[1] - 4 * a[1]) * (p[1] - 4 * b[1]) <= 0 /\ (p[2] - 4 * a[2]) * (p[2] - 4 * b[2]) <= 0
\* (a side of one face only, of a face that holds the point)
OnRim(nodes, faces, p) ==
    \E i \in Holders(nodes, faces, p) : \E e \in Sides(faces[i]) : OnSide(nodes, e, p) /\ Cardinality(FacesAt(faces, e)) = 1

\* r (0-based face, or -1): a face that holds the point; a point on the rim of the mesh may also be left out
LocateOk(nodes, faces, p, r) ==
    IF r = -1 THEN Holders(nodes, faces, p) = {} \/ OnRim(nodes, faces, p)
    ELSE (r + 1) \in Holders(nodes, faces, p)

(* ---- interpolation ---- *)
\* weights of the three corners of a triangle
Bary(nodes, f, p) ==
    LET a == Corner(nodes, f, 1)  b == Corner(nodes, f, 2)  c == Corner(nodes, f, 3)
        d == Cross(a, b, <<4 * c[1], 4 * c[2]>>)
    IN <<Frac(Cross(b, c, p), d), Frac(Cross(c, a, p), d), Frac(Cross(a, b, p), d)>>
NodeValue(nodes, f, data, p) ==
    LET w == Bary(nodes, f, p)
    IN RSumSeq([k \in 1..3 |-> RMul(w[k], R(data[f[k] + 1]))])
\* the values a query may give: those of the faces that may be found (0 when none)
Values(nodes, faces, loc, data, p) ==
    {IF loc = "face" THEN R(data[i]) ELSE NodeValue(nodes, faces[i], data, p) : i \in Holders(nodes, faces, p)}
    \cup (IF LocateOk(nodes, faces, p, -1) THEN {RZero} ELSE {})

\* the node nearest to the point (16 times the squared distance)
Dist(nodes, k, p) == (4 * nodes[k][1] - p[1]) * (4 * nodes[k][1] - p[1]) + (4 * nodes[k][2] - p[2]) * (4 * nodes[k][2] - p[2])
NearestOk(nodes, p, r) == (r + 1) \in 1..Len(nodes) /\ \A k \in 1..Len(nodes) : Dist(nodes, r + 1, p) <= Dist(nodes, k, p)

\* where the data belong, from their number
Location(nn, nf, nb, size) == IF size = nn THEN "node" ELSE IF size = nf THEN "face"
                              ELSE IF nb >= 0 /\ size = nb THEN "boundary" ELSE "none"

(* ---- meta-properties ---- *)
WeightsSumToOne(nodes, faces, p) == \A i \in Holders(nodes, faces, p) : RSumSeq(Bary(nodes, faces[i], p)) = ROne
WeightsInUnit(nodes, faces, p) == \A i \in Holders(nodes, faces, p) : \A k \in 1..3 :
                                    RLe(RZero, Bary(nodes, faces[i], p)[k]) /\ RLe(Bary(nodes, faces[i], p)[k], ROne)
\* two faces that share a point give it the same value: the field is continuous
Continuous(nodes, faces, data, p) == \A i, k \in Holders(nodes, faces, p) :
                                    NodeValue(nodes, faces[i], data, p) = NodeValue(nodes, faces[k], data, p)
\* every edge is inner or on the rim; counting sides both ways agrees
Count(faces) == RSumSeq([i \in 1..Len(faces) |-> R(Len(faces[i]))])[1]
                = 2 * Cardinality(EdgeSet(faces)) - Cardinality(BoundarySet(faces))
Mutual(faces) == \A i \in 1..Len(faces) : \A j \in 1..Len(faces[i]) :
                    LET k == Neighbour(faces, i, j) IN
                    k # -1 => \E m \in 1..Len(faces[k + 1]) : Neighbour(faces, k + 1, m) = i - 1
=============================================================================
