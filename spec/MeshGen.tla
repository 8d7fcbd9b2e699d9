-------------------------------- MODULE MeshGen --------------------------------
(* Triangulations of a 3 x 3 lattice of nodes: every choice of diagonal in    *)
(* each of the four squares and every non-empty choice of triangles present,  *)
(* so that holes, separate parts and parts meeting in a node all occur.       *)
(* MaxDiag = 2: squares may also be left whole, some but not all.              *)
EXTENDS MeshModel, TLC, Json
VARIABLE c
Lattice == [k \in 1..9 |-> <<((k - 1) % 3) * 2, ((k - 1) \div 3) * 2>>]
Tris(sq, diag) == LET a == (sq % 2) + 3 * (sq \div 2)  b == a + 1  d == a + 3  e == a + 4
                  IN IF diag = 2 THEN <<<<a, b, e, d>>>> ELSE IF diag = 0 THEN <<<<a, b, e>>, <<a, e, d>>>> ELSE <<<<a, b, d>>, <<b, e, d>>>>
All(ds) == Tris(0, ds[1]) \o Tris(1, ds[2]) \o Tris(2, ds[3]) \o Tris(3, ds[4])
CONSTANTS Present, MaxDiag
PresentQuick == {S \in SUBSET (1..8) : Cardinality(S) \in {1, 2, 7, 8}}
PresentMixed == {S \in SUBSET (1..7) : Cardinality(S) \in {2, 6, 7} \/ S = 1..5}
PresentDeep == (SUBSET (1..8)) \ {{}}
RECURSIVE Pick(_, _)
Pick(s, S) == IF S = {} THEN <<>> ELSE LET m == Min(S) IN <<s[m]>> \o Pick(s, S \ {m})
Init == \E ds \in [1..4 -> 0..MaxDiag], S \in Present :
            /\ S \subseteq 1..Len(All(ds))
            /\ c = Pick(All(ds), S)
            /\ MaxDiag = 2 => {Len(c[i]) : i \in 1..Len(c)} = {3, 4}
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Pts == {<<x, y>> : x \in {-1, 0, 2, 3, 8, 12, 16}, y \in {0, 4, 5, 8, 13, 16, 17}}
D == <<3, -2, 7, 0, 5, 1, -4, 6, 2>>
Inv == /\ Manifold(c) /\ Count(c) /\ Mutual(c)
       /\ MaxDiag = 1 => \A p \in Pts : WeightsSumToOne(Lattice, c, p) /\ WeightsInUnit(Lattice, c, p) /\ Continuous(Lattice, c, D, p)
       /\ \A p \in Pts : \E r \in -1..(Len(c) - 1) : LocateOk(Lattice, c, p, r)
       /\ PrintT(ToJson([faces |-> c]))
=============================================================================
