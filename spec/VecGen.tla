-------------------------------- MODULE VecGen --------------------------------
(* Turns, polygons, bearings and tables, and what must hold of them.           *)
EXTENDS Vec, TLC, Json
VARIABLE c

Turns == {<<Frac(3, 5), Frac(4, 5)>>, <<Frac(3, 5), Frac(-4, 5)>>, <<R(1), R(0)>>, <<R(0), R(1)>>, <<R(-1), R(0)>>,
          <<R(0), R(-1)>>, <<Frac(-5, 13), Frac(12, 13)>>, <<Frac(15, 17), Frac(-8, 17)>>}
Corners == {<<x, y>> : x \in {0, 2, 4}, y \in {0, 2, 4}}
Polys == {<<p, q, r>> : p \in {<<0, 0>>, <<2, 2>>, <<2, 0>>, <<0, 2>>}, q \in Corners, r \in Corners}
         \cup {<<p, q, r, s>> : p \in {<<0, 0>>, <<2, 4>>}, q \in Corners, r \in Corners, s \in Corners}
Probe == {<<x, y>> : x \in -1 .. 5, y \in -1 .. 5}
Places == {<<x, y>> : x \in {-270, -180, -90, -10, 0, 90, 170, 180}, y \in {-60, -30, 0, 30, 45}}

Init == \/ \E a \in Turns, x \in -2 .. 2, y \in -2 .. 2 : c = [k |-> "turn", a |-> a, v |-> <<R(x), R(y)>>]
        \/ \E P \in Polys : c = [k |-> "poly", poly |-> P]
        \/ \E p \in Places, q \in Places : Whole(p, q) /\ c = [k |-> "bear", p |-> p, q |-> q]
        \/ \E m \in 1 .. 5, n \in 1 .. 5, ax \in 0 .. 1 : c = [k |-> "avg", m |-> m, n |-> n, ax |-> ax]
        \/ \E p1 \in {"none", "low", "high", "both"}, p2 \in {"none", "low", "high", "both"}, t \in 0 .. 2 : c = [k |-> "field", p1 |-> p1, p2 |-> p2, t |-> t]
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c

\* turning keeps the length, can be undone, and two turns are one
Keeps == c.k = "turn" => Square(Turn(c.v, c.a)) = Square(c.v)
Undone == c.k = "turn" => Turn(Turn(c.v, c.a), Back(c.a)) = c.v
Two == c.k = "turn" => Turn(Turn(c.v, c.a), Quarter) = Turn(c.v, Plus(c.a, Quarter))
\* inside does not depend on the direction one looks in, nor on where the outline starts or which way it goes
Free == c.k = "poly" =>
    \A p \in Probe : ~OnOutline(p, c.poly) =>
        /\ InPoly(p, c.poly) = InPolyH(p, c.poly)
        /\ InPoly(p, c.poly) = InPoly(p, Tail(c.poly) \o <<Head(c.poly)>>)
        /\ InPoly(p, c.poly) = InPoly(p, [i \in DOMAIN c.poly |-> c.poly[Len(c.poly) + 1 - i]])
        /\ Convex(c.poly) /\ Len(c.poly) = 3 => InPoly(p, c.poly) = AllOneSide(p, c.poly)
\* east of a place is west of what lies in the mirror
Mirror == c.k = "bear" => LET m(p) == <<-p[1], p[2]>> IN (Bearing(c.p, c.q) + Bearing(m(c.p), m(c.q))) % 360 = 0
\* averages of a plane are the plane
Plane(m, n) == [i \in 1 .. m |-> [j \in 1 .. n |-> R(6 * i + 2 * j)]]
Level == c.k = "avg" => Averaged(Plane(c.m, c.n), c.ax) =
    [i \in 1 .. (c.m - (1 - c.ax)) |-> [j \in 1 .. (c.n - c.ax) |-> R(6 * i + 2 * j + (IF c.ax = 1 THEN 1 ELSE 3))]]
Emit == PrintT(ToJson(c))
=============================================================================
