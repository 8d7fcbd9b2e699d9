-------------------------------- MODULE TopoGen --------------------------------
(* All meshes of up to MaxF faces on N nodes in which no side has more than   *)
(* two faces (planar or not): the topology rules do not depend on coordinates.*)
(* NV: the corners of a face; 34: triangles and quadrilaterals in one mesh.    *)
EXTENDS MeshModel, TLC, Json
CONSTANTS N, MaxF, NV
VARIABLE c
\* one representative per set of nodes: ascending; for four corners also the two other ways round
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE <<Min(S)>> \o Asc(S \ {Min(S)})
Base(k) == {Asc(S) : S \in {T \in SUBSET (0..(N - 1)) : Cardinality(T) = k}}
Quads == UNION {{s, <<s[1], s[3], s[2], s[4]>>, <<s[1], s[2], s[4], s[3]>>} : s \in Base(4)}
Candidates == IF NV = 3 THEN Base(3) ELSE IF NV = 4 THEN Quads ELSE Base(3) \cup Quads
Key(s) == IF Len(s) = 3 THEN s[1] * 100 + s[2] * 10 + s[3] ELSE 10000 + s[1] * 1000 + s[2] * 100 + s[3] * 10 + s[4]
Init == c = <<>>
Next == /\ Len(c) < MaxF
        /\ \E s \in Candidates : (IF c = <<>> THEN TRUE ELSE Key(c[Len(c)]) < Key(s)) /\ c' = Append(c, s) /\ Manifold(c')
Spec == Init /\ [][Next]_c
Mixed == {Len(c[i]) : i \in 1..Len(c)} = {3, 4}
Inv == c = <<>> \/ (Count(c) /\ Mutual(c) /\ ((NV \in {3, 4} \/ Mixed) => PrintT(ToJson([faces |-> c, n |-> N]))))
=============================================================================
