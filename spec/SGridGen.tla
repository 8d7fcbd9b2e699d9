-------------------------------- MODULE SGridGen -------------------------------
(* Staggered grids (turned, mirrored, sheared, distorted), their masks and     *)
(* padding, with the rules of SGridModel checked on each; the points are the   *)
(* quarter lattice of every cell and points just beyond the outer sides.       *)
EXTENDS SGridModel, TLC, Json
CONSTANTS Shapes, Turns, Perts, Masks
VARIABLE c
ShapesQuick == {<<2, 2>>, <<3, 4>>, <<4, 3>>}
ShapesDeep == {<<2, 2>>, <<2, 5>>, <<3, 3>>, <<3, 4>>, <<4, 3>>, <<5, 2>>, <<4, 4>>}
TurnsQuick == {<<1, 0, 0, 1>>, <<0, 1, 1, 0>>, <<-1, 0, 0, 1>>, <<1, 1, -1, 1>>, <<0, -1, 1, 0>>}
TurnsDeep == TurnsQuick \cup {<<1, 0, 0, -1>>, <<2, 1, 0, 1>>, <<3, -1, 1, 3>>, <<-1, 0, 0, -1>>, <<1, 0, 1, 1>>}
MaskKinds == {"none", "c-none", "c-low", "c-both", "c-high", "node"}

Wiggle(k, r, cc) == IF k = 0 THEN <<0, 0>>
                    ELSE <<((r * 5 + cc * 3 * k + r * cc) % 3) - 1, ((r * 2 * k + cc * 7 + k) % 3) - 1>>
Node(t, k, r, cc) == LET w == Wiggle(k, r, cc)
                         x == 8 * cc + w[1]
                         y == 8 * r + w[2]
                     IN <<t[1] * x + t[2] * y, t[3] * x + t[4] * y>>
Init == \E s \in Shapes, t \in Turns, k \in Perts, m \in Masks :
           c = [s |-> s, t |-> t, k |-> k, m |-> m]
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
CP == CASE c.m = "c-low" -> <<"low", "low">> [] c.m = "c-both" -> <<"both", "both">> [] c.m = "c-high" -> <<"high", "low">> [] OTHER -> <<"none", "none">>
CR == c.s[1] - 1 + PadLen(CP[1])
CC == c.s[2] - 1 + PadLen(CP[2])
Hit(r, cc) == (r * 3 + cc * 2 + c.k + r * cc) % 4 = 0
G == [nodes |-> [r \in 1..c.s[1] |-> [cc \in 1..c.s[2] |-> Node(c.t, c.k, r - 1, cc - 1)]],
      fpad |-> IF c.m = "c-high" THEN CP ELSE <<>>,
      cshape |-> IF c.m \in {"c-none", "c-low", "c-both", "c-high"} THEN <<CR, CC>> ELSE <<>>,
      npad |-> <<>>, e1pad |-> <<>>, e2pad |-> <<>>, hase1 |-> FALSE, hase2 |-> FALSE,
      cmask |-> IF c.m \in {"none", "node"} THEN <<>> ELSE [r \in 1..CR |-> [cc \in 1..CC |-> IF Hit(r, cc) THEN 1 ELSE 0]],
      nmask |-> IF c.m = "node" THEN [r \in 1..c.s[1] |-> [cc \in 1..c.s[2] |-> IF (r * 3 + cc + c.k) % 6 = 0 THEN 1 ELSE 0]] ELSE <<>>]
D == [r \in 1..c.s[1] |-> [cc \in 1..c.s[2] |-> ((r * r * 7 + cc * 5 * r + cc * cc) % 11) - 4]]
Z == [r \in 1..c.s[1] |-> [cc \in 1..c.s[2] |-> 0]]
Ws == {<<r, cc, fx, fy>> : r \in 0..(c.s[1] - 2), cc \in 0..(c.s[2] - 2), fx \in 0..4, fy \in 0..4}
\* extended a quarter beyond the outer sides
Beyond == {p \in {Pos(G, <<r, cc, fx, fy>>) : r \in {0, c.s[1] - 2}, cc \in {0, c.s[2] - 2}, fx \in {-1, 2, 5}, fy \in {-1, 2, 5}} : CellsAt(G, p) = {}}
RECURSIVE S2S(_)
S2S(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : TRUE IN <<m>> \o S2S(S \ {m})
\* (they do not depend on the masks)
Geometry ==
    /\ \A r \in 0..(c.s[1] - 2), cc \in 0..(c.s[2] - 2) : Convex(Ring(G, r, cc))
    \* the names of a point agree with the geometry
    /\ \A w \in Ws : \A v \in {a \in Aliases(w) : IsCell(G, a[1], a[2])} : Pos(G, v) = Pos(G, w) /\ NodeVal(D, Z, <<"none", "none">>, v) = NodeVal(D, Z, <<"none", "none">>, w)
    /\ \A w \in Ws : CellsAt(G, Pos(G, w)) = {<<v[1], v[2]>> : v \in {a \in Aliases(w) : IsCell(G, a[1], a[2])}}
    /\ \A w \in Ws : w[3] \in 1..3 /\ w[4] \in 1..3 => StrictlyInRing(Ring(G, w[1], w[2]), Pos(G, w))
    \* interpolation of the coordinates themselves gives back the point
    /\ \A w \in Ws : \A k \in 1..2 :
         NodeVal([r \in 1..c.s[1] |-> [cc \in 1..c.s[2] |-> G.nodes[r][cc][k]]], Z, <<"none", "none">>, w) = Frac(Pos(G, w)[k], 16)
Inv == /\ c.m = "none" => Geometry
       /\ Beyond # {}
       /\ PrintT(ToJson([g |-> G, beyond |-> S2S(Beyond)]))
=============================================================================
