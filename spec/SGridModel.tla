------------------------------- MODULE SGridModel ------------------------------
(* Staggered (curvilinear) grids.  nodes[r][c] = <<x, y>> (integers) are the   *)
(* corners of the cells; cell (r, c), counted from 0, has the nodes (r, c),    *)
(* (r, c+1), (r+1, c+1), (r+1, c).  Data may lie on the nodes, in the cells    *)
(* ("center") or on the two families of cell sides ("edge1" between columns,   *)
(* "edge2" between rows), each array possibly padded at the low and/or high    *)
(* end of each dimension.                                                      *)
EXTENDS Rat, FiniteSets

NR(g) == Len(g.nodes)
NC(g) == Len(g.nodes[1])

(* ---- padding ---- *)
PadTypes == {"none", "low", "high", "both"}
PadLo(p) == IF p \in {"low", "both"} THEN 1 ELSE 0
PadHi(p) == IF p \in {"high", "both"} THEN 1 ELSE 0
PadLen(p) == PadLo(p) + PadHi(p)
\* padding of the centers seen from the shape of their coordinates: one fewer than the nodes = none, as many = low, one more = both
InferPad(ncen, nnode) == IF ncen - nnode = -1 THEN "none" ELSE IF ncen = nnode THEN "low" ELSE "both"
CenterPad(g) == IF g.fpad # <<>> THEN g.fpad
                ELSE IF g.cshape # <<>> THEN <<InferPad(g.cshape[1], NR(g)), InferPad(g.cshape[2], NC(g))>>
                ELSE <<"none", "none">>
PadOf(g, loc) == CASE loc = "node" -> IF g.npad # <<>> THEN g.npad ELSE <<"none", "none">>
                   [] loc = "center" -> CenterPad(g)
                   [] loc = "edge1" -> IF g.e1pad # <<>> THEN g.e1pad ELSE <<CenterPad(g)[1], "none">>
                   [] loc = "edge2" -> IF g.e2pad # <<>> THEN g.e2pad ELSE <<"none", CenterPad(g)[2]>>
                   [] OTHER -> <<"none", "none">>
\* size of the data on a location
RowsOf(g, loc) == IF loc \in {"node", "edge2"} THEN NR(g) ELSE NR(g) - 1
ColsOf(g, loc) == IF loc \in {"node", "edge1"} THEN NC(g) ELSE NC(g) - 1
ShapeOf(g, loc, pad) == <<RowsOf(g, loc) + PadLen(pad[1]), ColsOf(g, loc) + PadLen(pad[2])>>

(* ---- which cells are there ---- *)
\* (a node mask is padded as node data is)
AnyMasked(g, r, c) == LET a == r + 1 + PadLo(PadOf(g, "node")[1])
                          b == c + 1 + PadLo(PadOf(g, "node")[2])
                      IN 1 \in {g.nmask[a][b], g.nmask[a][b + 1], g.nmask[a + 1][b + 1], g.nmask[a + 1][b]}
CellMasked(g, r, c) == IF g.cmask # <<>>
                       THEN g.cmask[r + 1 + PadLo(CenterPad(g)[1])][c + 1 + PadLo(CenterPad(g)[2])] = 1
                       ELSE IF g.nmask # <<>> THEN AnyMasked(g, r, c) ELSE FALSE
IsCell(g, r, c) == r \in 0..(NR(g) - 2) /\ c \in 0..(NC(g) - 2)
Usable(g, r, c) == IsCell(g, r, c) /\ ~CellMasked(g, r, c)

(* ---- points: <<r, c, fx, fy>>, cell and position in it in quarters; r < 0: on no cell ---- *)
OUT(w) == w[1] < 0
\* the other ways to name a point on a side or corner of a cell
Aliases(w) == {<<rw[1], cw[1], cw[2], rw[2]>> :
                 rw \in {<<w[1], w[4]>>} \cup (IF w[4] = 0 THEN {<<w[1] - 1, 4>>} ELSE {}) \cup (IF w[4] = 4 THEN {<<w[1] + 1, 0>>} ELSE {}),
                 cw \in {<<w[2], w[3]>>} \cup (IF w[3] = 0 THEN {<<w[2] - 1, 4>>} ELSE {}) \cup (IF w[3] = 4 THEN {<<w[2] + 1, 0>>} ELSE {})}
Homes(g, w) == IF OUT(w) THEN {} ELSE {v \in Aliases(w) : Usable(g, v[1], v[2])}
\* a point is surely on the grid when every cell touching it is there
MayBeOff(g, w) == OUT(w) \/ \E v \in Aliases(w) : ~Usable(g, v[1], v[2])
LocateOk(g, w, i) == (\E v \in Homes(g, w) : i = <<v[1], v[2]>>) \/ (MayBeOff(g, w) /\ i = <<-1, -1>>)

(* ---- interpolation ---- *)
\* data d (integers) with mask dm (0/1) on location loc padded as pad; beh: what masked values on the sides count as
At(d, r, c) == d[r + 1][c + 1]
NodeVal(d, dm, pad, w) ==
    LET r == w[1] + PadLo(pad[1])
        c == w[2] + PadLo(pad[2])
        W(a, b) == Frac((IF b = 0 THEN 4 - w[3] ELSE w[3]) * (IF a = 0 THEN 4 - w[4] ELSE w[4]), 16)
        T(a, b) == IF At(dm, r + a, c + b) = 1 THEN RZero ELSE RMul(W(a, b), R(At(d, r + a, c + b)))
    IN IF \A a, b \in {0, 1} : At(dm, r + a, c + b) = 1 THEN MASKED
       ELSE RAdd(RAdd(T(0, 0), T(0, 1)), RAdd(T(1, 0), T(1, 1)))
CenterVal(d, dm, pad, w) ==
    LET r == w[1] + PadLo(pad[1])
        c == w[2] + PadLo(pad[2])
    IN IF At(dm, r, c) = 1 THEN MASKED ELSE R(At(d, r, c))
Blend(v1, m1, v2, m2, q, beh) ==
    LET a == IF m1 THEN (IF beh = "mirror" THEN -v2 ELSE 0) ELSE v1
        b == IF m2 THEN (IF beh = "mirror" THEN -v1 ELSE 0) ELSE v2
    IN IF beh = "mask" /\ (m1 \/ m2) THEN MASKED
       ELSE Frac((4 - q) * a + q * b, 4)
\* sides between a masked and an unmasked cell (a coast) carry no value; cells beyond the array continue it
Clip(i, n) == IF i < 0 THEN 0 ELSE IF i >= n THEN n - 1 ELSE i
CM(g, r, c) == IF g.cmask = <<>> THEN 0
               ELSE At(g.cmask, Clip(r + PadLo(CenterPad(g)[1]), Len(g.cmask)), Clip(c + PadLo(CenterPad(g)[2]), Len(g.cmask[1])))
Coast(g, r1, c1, r2, c2) == CM(g, r1, c1) # CM(g, r2, c2)
Edge1Val(g, d, dm, pad, w, beh) ==
    LET r == w[1] + PadLo(pad[1])
        c == w[2] + PadLo(pad[2])
    IN Blend(At(d, r, c), At(dm, r, c) = 1 \/ Coast(g, w[1], w[2], w[1], w[2] - 1),
             At(d, r, c + 1), At(dm, r, c + 1) = 1 \/ Coast(g, w[1], w[2], w[1], w[2] + 1), w[3], beh)
Edge2Val(g, d, dm, pad, w, beh) ==
    LET r == w[1] + PadLo(pad[1])
        c == w[2] + PadLo(pad[2])
    IN Blend(At(d, r, c), At(dm, r, c) = 1 \/ Coast(g, w[1], w[2], w[1] - 1, w[2]),
             At(d, r + 1, c), At(dm, r + 1, c) = 1 \/ Coast(g, w[1], w[2], w[1] + 1, w[2]), w[4], beh)
Value(g, loc, d, dm, pad, w, beh) ==
    CASE loc = "node" -> NodeVal(d, dm, pad, w)
      [] loc = "center" -> CenterVal(d, dm, pad, w)
      [] loc = "edge1" -> Edge1Val(g, d, dm, pad, w, beh)
      [] OTHER -> Edge2Val(g, d, dm, pad, w, beh)
\* both values of a side masked: "mirror" has nothing to mirror
Unspecified(g, loc, d, dm, pad, w, beh) ==
    /\ beh = "mirror"
    /\ loc \in {"edge1", "edge2"}
    /\ LET r == w[1] + PadLo(pad[1])
           c == w[2] + PadLo(pad[2])
           o == IF loc = "edge1" THEN <<0, 1>> ELSE <<1, 0>>
       IN /\ At(dm, r, c) = 1 \/ Coast(g, w[1], w[2], w[1] - o[1], w[2] - o[2])
          /\ At(dm, r + o[1], c + o[2]) = 1 \/ Coast(g, w[1], w[2], w[1] + o[1], w[2] + o[2])
ValueOk(g, loc, d, dm, pad, w, beh, v) ==
    \/ \E u \in Homes(g, w) : Unspecified(g, loc, d, dm, pad, u, beh) \/ v = Value(g, loc, d, dm, pad, u, beh)
    \/ MayBeOff(g, w) /\ v = MASKED

(* ---- nearest location: integer coordinates, point in sixteenths ---- *)
Dist2(xy, p) == (16 * xy[1] - p[1]) * (16 * xy[1] - p[1]) + (16 * xy[2] - p[2]) * (16 * xy[2] - p[2])
NearestOk(xy, p, i) == /\ i[1] \in 0..(Len(xy) - 1) /\ i[2] \in 0..(Len(xy[1]) - 1)
                       /\ \A r \in 1..Len(xy), c \in 1..Len(xy[1]) : Dist2(xy[i[1] + 1][i[2] + 1], p) <= Dist2(xy[r][c], p)

(* ---- where data of a shape lies ---- *)
Location(g, sh) ==
    LET dr == sh[1] - NR(g)
        dc == sh[2] - NC(g)
    IN IF <<dr, dc>> \in {<<1, 1>>, <<-1, -1>>} /\ g.cshape # <<>> THEN "center"
       ELSE IF <<dr, dc>> = <<1, 0>> /\ g.hase1 THEN "edge1"
       ELSE IF <<dr, dc>> = <<0, 1>> /\ g.hase2 THEN "edge2"
       ELSE IF <<dr, dc>> = <<0, 0>> THEN "node" ELSE "none"

(* ---- geometry, for the meta-properties: positions times 16 ---- *)
Pos(g, w) ==
    LET P(a, b) == g.nodes[w[1] + 1 + a][w[2] + 1 + b]
        W(a, b) == (IF b = 0 THEN 4 - w[3] ELSE w[3]) * (IF a = 0 THEN 4 - w[4] ELSE w[4])
    IN <<W(0, 0) * P(0, 0)[1] + W(0, 1) * P(0, 1)[1] + W(1, 0) * P(1, 0)[1] + W(1, 1) * P(1, 1)[1],
         W(0, 0) * P(0, 0)[2] + W(0, 1) * P(0, 1)[2] + W(1, 0) * P(1, 0)[2] + W(1, 1) * P(1, 1)[2]>>
Ring(g, r, c) == <<g.nodes[r + 1][c + 1], g.nodes[r + 1][c + 2], g.nodes[r + 2][c + 2], g.nodes[r + 2][c + 1]>>
Turn(a, b, p) == (b[1] - a[1]) * (p[2] - 16 * a[2]) - (b[2] - a[2]) * (p[1] - 16 * a[1])
InRing(q, p) == LET T(i) == Turn(q[i], q[(i % 4) + 1], p)
                IN (\A i \in 1..4 : T(i) >= 0) \/ (\A i \in 1..4 : T(i) <= 0)
StrictlyInRing(q, p) == LET T(i) == Turn(q[i], q[(i % 4) + 1], p)
                        IN (\A i \in 1..4 : T(i) > 0) \/ (\A i \in 1..4 : T(i) < 0)
Convex(q) == LET T(i) == Turn(q[i], q[(i % 4) + 1], <<16 * q[((i + 1) % 4) + 1][1], 16 * q[((i + 1) % 4) + 1][2]>>)
             IN (\A i \in 1..4 : T(i) > 0) \/ (\A i \in 1..4 : T(i) < 0)
CellsAt(g, p) == {rc \in (0..(NR(g) - 2)) \X (0..(NC(g) - 2)) : InRing(Ring(g, rc[1], rc[2]), p)}
=============================================================================
