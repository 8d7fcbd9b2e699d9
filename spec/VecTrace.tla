------------------------------- MODULE VecTrace -------------------------------
(* Judges what the real functions made of vectors, tables, places and points.  *)
EXTENDS Vec, TraceLib
VARIABLE l

Same(e) == Clause(e.same, "the arrays of the caller are as they were")
Ok(e, bad) == Clause(e.out = "ok", "outcome of the call") \cup (IF e.out = "ok" THEN bad ELSE {}) \cup Same(e)
TurnEv(e) ==
    LET n == Len(e.x) W(i) == Turn(<<e.x[i], e.y[i]>>, e.a[i]) IN
    Ok(e, Clause(Len(e.xr) = n /\ Len(e.yr) = n /\ e.shape, "one vector for each vector")
          \cup (IF Len(e.xr) = n /\ Len(e.yr) = n
                THEN Clause(\A i \in 1 .. n : e.xr[i] = W(i)[1] /\ e.yr[i] = W(i)[2], "vectors turned by the angle") ELSE {}))
SumEv(e) ==
    LET n == Len(e.x) IN
    Ok(e, Clause(Len(e.r2) = n /\ Len(e.pos) = n /\ e.shape, "one length for each vector")
          \cup (IF Len(e.r2) = n /\ Len(e.pos) = n
                THEN Clause(\A i \in 1 .. n : e.pos[i] /\ e.r2[i] = Square(<<e.x[i], e.y[i]>>), "length of the vector") ELSE {}))
AvgEv(e) == Ok(e, Clause(e.res = Averaged(e.t, e.ax), "mean of the two neighbours"))
PairEv(e) ==
    LET n == Len(e.x) IN
    Ok(e, Clause(Len(e.res) = n /\ e.shape, "one pair for each place")
          \cup (IF Len(e.res) = n THEN Clause(\A i \in 1 .. n : e.res[i] = <<e.x[i], e.y[i]>>, "first and second of a pair") ELSE {}))
\* angles come as rationals; whole degrees on the circle
On(r, d) == r[2] = 1 /\ (r[1] - d) % 360 = 0
BearEv(e) ==
    LET n == Len(e.p) IN
    Ok(e, Clause(Len(e.b) = n, "one bearing for each pair of places")
          \cup (IF Len(e.b) = n THEN Clause(\A i \in 1 .. n : On(e.b[i], Bearing(e.p[i], e.q[i])) /\ e.b[i][1] >= 0 /\ e.b[i][1] <= 360, "bearing from north") ELSE {})
          \cup Clause(Len(e.ang) = n + 1, "one angle for each, the last one twice")
          \cup (IF Len(e.ang) = n + 1
                THEN Clause(\A i \in 1 .. (n + 1) : LET j == IF i > n THEN n ELSE i IN On(e.ang[i], 90 - Bearing(e.p[j], e.q[j])), "angle from east") ELSE {}))
PolyEv(e) ==
    LET n == Len(e.pts) IN
    Ok(e, Clause(Len(e.in) = n, "one answer for each point")
          \cup (IF Len(e.in) = n THEN Clause(\A i \in 1 .. n : OnOutline(e.pts[i], e.polys[i]) \/ e.in[i] = InPoly(e.pts[i], e.polys[i]), "inside of its polygon") ELSE {}))
\* the current at the centers of the cells: u on edge1 (padded in rows), v on edge2 (padded in columns), the angle at the centers (both)
Low(p) == IF p \in {"low", "both"} THEN 1 ELSE 0
FieldEv(e) ==
    LET n == e.n
        U(k) == Averaged(Trim(e.u[k], <<Low(e.p2), 0>>, <<n[1], n[2] + 1>>), 1)
        V(k) == Averaged(Trim(e.v[k], <<0, Low(e.p1)>>, <<n[1] + 1, n[2]>>), 0)
        A == Trim(e.ang, <<Low(e.p2), Low(e.p1)>>, n)
        W(k, i, j) == Turn(<<U(k)[i][j], V(k)[i][j]>>, A[i][j])
        T == Len(e.u)
        Fits(x) == Len(x) = T /\ \A k \in 1 .. T : Len(x[k]) = n[1] /\ \A i \in 1 .. n[1] : Len(x[k][i]) = n[2]
    IN Ok(e, Clause(Fits(e.x) /\ Fits(e.y) /\ Fits(e.s2), "one vector for each cell")
             \cup (IF Fits(e.x) /\ Fits(e.y) /\ Fits(e.s2)
                   THEN Clause(\A k \in 1 .. T : \A i \in 1 .. n[1] : \A j \in 1 .. n[2] :
                                  e.x[k][i][j] = W(k, i, j)[1] /\ e.y[k][i][j] = W(k, i, j)[2], "current at the centers of the cells")
                        \cup Clause(\A k \in 1 .. T : \A i \in 1 .. n[1] : \A j \in 1 .. n[2] :
                                  e.s2[k][i][j] = Square(W(k, i, j)), "speed at the centers of the cells") ELSE {}))
Bad(e) == CASE e.ev = "turn" -> TurnEv(e) [] e.ev = "sum" -> SumEv(e) [] e.ev = "avg" -> AvgEv(e) [] e.ev = "pair" -> PairEv(e)
            [] e.ev = "bear" -> BearEv(e) [] e.ev = "poly" -> PolyEv(e) [] e.ev = "field" -> FieldEv(e)
Init == l = 0
Next == /\ l < Len(Log)
        /\ Judge(l + 1, Bad(Log[l + 1]))
        /\ l' = l + 1
        /\ (l' = Len(Log) => PrintT(<<"TRACE-DONE", l'>>))
Spec == Init /\ [][Next]_l
=============================================================================
