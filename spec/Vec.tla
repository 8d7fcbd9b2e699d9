---------------------------------- MODULE Vec ----------------------------------
(* What is done to vectors and points on staggered grids: components on the    *)
(* sides of cells are averaged to the centers, turned by the angle of the grid *)
(* and summed; bearings between points; points in polygons.                    *)
EXTENDS Rat, FiniteSets

Has(m, xs) == \E i \in DOMAIN xs : xs[i] = m
\* arithmetic on values that may be masked
MAdd(a, b) == IF a = MASKED \/ b = MASKED THEN MASKED ELSE RAdd(a, b)
MMul(a, b) == IF a = MASKED \/ b = MASKED THEN MASKED ELSE RMul(a, b)
MNeg(a) == IF a = MASKED THEN MASKED ELSE RNeg(a)
Mean2(a, b) == MMul(<<1, 2>>, MAdd(a, b))

\* an angle is its cosine and sine
Turn(v, a) == <<MAdd(MMul(v[1], a[1]), MNeg(MMul(v[2], a[2]))), MAdd(MMul(v[1], a[2]), MMul(v[2], a[1]))>>
Square(v) == MAdd(MMul(v[1], v[1]), MMul(v[2], v[2]))
Back(a) == <<a[1], RNeg(a[2])>>
Quarter == <<R(0), R(1)>>
Plus(a, b) == Turn(a, b)

\* a table by rows; averages of neighbours along a row (1) or down a column (0)
Averaged(t, ax) ==
    IF ax = 1 THEN [i \in DOMAIN t |-> [j \in 1 .. (Len(t[i]) - 1) |-> Mean2(t[i][j], t[i][j + 1])]]
    ELSE [i \in 1 .. (Len(t) - 1) |-> [j \in DOMAIN t[i] |-> Mean2(t[i][j], t[i + 1][j])]]
\* without the padding: c = what is left out below and above, on the rows and on the columns
Trim(t, lo, n) == [i \in 1 .. n[1] |-> [j \in 1 .. n[2] |-> t[i + lo[1]][j + lo[2]]]]

\* ---- bearings in whole degrees, clockwise from north ----
\* p = <<lon, lat>>; the bearing of the great circle where it is a whole number of degrees
Dlon(p, q) == (q[1] - p[1]) % 360
Bearing(p, q) ==
    CASE Dlon(p, q) = 0 -> IF q[2] > p[2] THEN 0 ELSE 180
      [] Dlon(p, q) = 180 -> IF p[2] + q[2] > 0 THEN 0 ELSE 180
      [] p[2] = 0 /\ q[2] = 0 -> IF Dlon(p, q) < 180 THEN 90 ELSE 270
      [] p[2] = 0 /\ Dlon(p, q) = 90 -> 90 - q[2]
      [] p[2] = 0 /\ Dlon(p, q) = 270 -> (270 + q[2]) % 360
Whole(p, q) == /\ p # q
               /\ \/ Dlon(p, q) = 0 /\ p[2] # q[2]
                  \/ Dlon(p, q) = 180 /\ p[2] + q[2] # 0
                  \/ p[2] = 0 /\ q[2] = 0 /\ Dlon(p, q) \notin {0, 180}
                  \/ p[2] = 0 /\ Dlon(p, q) \in {90, 270}

\* ---- points in polygons: the number of sides above the point is odd ----
Cross(p, a, b) == (b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Between(x, a, b) == (a <= x /\ x <= b) \/ (b <= x /\ x <= a)
OnSide(p, a, b) == Cross(p, a, b) = 0 /\ Between(p[1], a[1], b[1]) /\ Between(p[2], a[2], b[2])
Nxt(P, i) == P[(i % Len(P)) + 1]
OnOutline(p, P) == \E i \in DOMAIN P : OnSide(p, P[i], Nxt(P, i))
Above(p, a, b) == ((a[1] > p[1]) # (b[1] > p[1])) /\ Sgn(Cross(p, a, b)) = -Sgn(b[1] - a[1])
Right(p, a, b) == ((a[2] > p[2]) # (b[2] > p[2])) /\ Sgn(Cross(p, a, b)) = Sgn(b[2] - a[2])
Odd(S) == Cardinality(S) % 2 = 1
InPoly(p, P) == Odd({i \in DOMAIN P : Above(p, P[i], Nxt(P, i))})
InPolyH(p, P) == Odd({i \in DOMAIN P : Right(p, P[i], Nxt(P, i))})
\* on the same side of all sides, the outline turning one way
Convex(P) == \/ \A i \in DOMAIN P : Cross(Nxt(P, (i % Len(P)) + 1), P[i], Nxt(P, i)) > 0
             \/ \A i \in DOMAIN P : Cross(Nxt(P, (i % Len(P)) + 1), P[i], Nxt(P, i)) < 0
AllOneSide(p, P) == \/ \A i \in DOMAIN P : Cross(p, P[i], Nxt(P, i)) > 0
                    \/ \A i \in DOMAIN P : Cross(p, P[i], Nxt(P, i)) < 0
=============================================================================
