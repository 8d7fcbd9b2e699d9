------------------------------ MODULE DepthModel ------------------------------
(* Vertical coordinate systems and the value of a variable in a water column.  *)
(*                                                                             *)
(* Horizontally the grid is 0 < x < 3, 0 < y < 2 with unit cells; points are   *)
(* <<px, py, z>> with px = 4x, py = 4y and z (a rational) the depth below the  *)
(* surface, positive down.  Fields on the nodes are linear: <<a, b, c>> stands *)
(* for a + b*x + c*y.                                                          *)
(* A depth system d:                                                           *)
(*   kind "surf"  : only the index d.si of the surface is known                *)
(*   kind "L"     : d.levels, fixed depths (rationals), up or down             *)
(*   kind "roms"  : d.s, d.cs (levels), d.sr, d.csr (layers), d.hc, d.vt       *)
(*   kind "fvcom" : d.sig (levels), d.sigr (layers): one linear field per      *)
(*                  level, in eighths                                          *)
(*   roms and fvcom: d.h bathymetry, d.zeta one linear field per time of d.zt  *)
EXTENDS TimeModel, Rat, TLC

InsideGrid(p) == 0 < p[1] /\ p[1] < 12 /\ 0 < p[2] /\ p[2] < 8
Lin(c, p) == RAdd(R(c[1]), Frac(c[2] * p[1] + c[3] * p[2], 4))
\* data on cell centers: constant over the unit cell
Cell(c, p) == R(c[1] + c[2] * (p[1] \div 4) + c[3] * (p[2] \div 4))

\* linear in time between the bracketing times, the end values outside
InTime(times, t, V(_)) ==
    IF times = <<>> THEN V(1)
    ELSE LET n == Len(times) IN
         IF t <= times[1] THEN V(1)
         ELSE IF t >= times[n] THEN V(n)
         ELSE LET i == IndexOf(times, t)  a == Alpha(times, t)
              IN RLerp(V(i), V(i + 1), Frac(a[1], a[2]))

(* ---------------- the water column ---------------- *)
Zeta(d, t, p) == InTime(d.zt, t, LAMBDA k : Lin(d.zeta[k], p))
Bathy(d, p) == Lin(d.h, p)

\* depth below the free surface of a terrain-following level
RomsLevel(d, s, cs, h, zeta) ==
    LET hc == R(d.hc)
        S == IF d.vt = 2 THEN RDiv(RAdd(RMul(hc, s), RMul(h, cs)), RAdd(hc, h))     \* share of the water column
             ELSE RDiv(RAdd(RMul(hc, s), RMul(RSub(h, hc), cs)), h)
    IN RNeg(RMul(RAdd(h, zeta), S))
SigmaLevel(sig, h, zeta, p) == RNeg(RMul(RAdd(h, zeta), RMul(<<1, 8>>, Lin(sig, p))))

Profile(d, t, p) ==
    IF d.kind = "L" THEN d.levels
    ELSE LET h == Bathy(d, p)  z == Zeta(d, t, p) IN
         IF d.kind = "roms" THEN TLCEval([i \in 1..Len(d.s) |-> RomsLevel(d, d.s[i], d.cs[i], h, z)])
         ELSE TLCEval([i \in 1..Len(d.sig) |-> SigmaLevel(d.sig[i], h, z, p)])
LayerProfile(d, t, p) ==
    LET h == Bathy(d, p)  z == Zeta(d, t, p) IN
    IF d.kind = "roms" THEN [i \in 1..Len(d.sr) |-> RomsLevel(d, d.sr[i], d.csr[i], h, z)]
    ELSE [i \in 1..Len(d.sigr) |-> SigmaLevel(d.sigr[i], h, z, p)]

NumLevels(d) == CASE d.kind = "L" -> Len(d.levels) [] d.kind = "roms" -> Len(d.s) [] d.kind = "fvcom" -> Len(d.sig) [] OTHER -> 1
NumLayers(d) == IF d.kind = "surf" THEN 0 ELSE NumLevels(d) - 1

(* ---------------- place of a depth in a column ---------------- *)
Rising(prof) == Len(prof) = 1 \/ RLt(prof[1], prof[2])        \* from the surface to the bottom
Top(prof) == IF Rising(prof) THEN prof[1] ELSE prof[Len(prof)]
Bottom(prof) == IF Rising(prof) THEN prof[Len(prof)] ELSE prof[1]
TopIndex(prof) == IF Rising(prof) THEN 1 ELSE Len(prof)
BottomIndex(prof) == IF Rising(prof) THEN Len(prof) ELSE 1
Above(prof, z) == RLt(z, Top(prof))
Below(prof, z) == RLt(Bottom(prof), z)
\* the layers (i = between level i and i+1) whose closed interval holds z
Holding(prof, z) == {i \in 1..(Len(prof) - 1) :
    \/ (RLe(prof[i], z) /\ RLe(z, prof[i + 1]))
    \/ (RLe(prof[i + 1], z) /\ RLe(z, prof[i]))}
FracIn(prof, i, z) == RDiv(RSub(z, prof[i]), RSub(prof[i + 1], prof[i]))

\* set of admissible positions, counted in levels from 0; MASKED where the boundary condition says so
Positions(prof, z, sbc, bbc) ==
    IF Above(prof, z) THEN {IF sbc = "mask" THEN MASKED ELSE R(TopIndex(prof) - 1)}
    ELSE IF Below(prof, z) THEN {IF bbc = "mask" THEN MASKED ELSE R(BottomIndex(prof) - 1)}
    ELSE {RAdd(R(i - 1), FracIn(prof, i, z)) : i \in Holding(prof, z)}
         \cup (IF z = Top(prof) /\ sbc = "mask" THEN {MASKED} ELSE {})
         \cup (IF z = Bottom(prof) /\ bbc = "mask" THEN {MASKED} ELSE {})
\* between two levels; exactly at a level the other one has no part in the value (it may be missing)
Blend(u, v, q) == IF q = RZero THEN u ELSE IF q = R(1) THEN v ELSE IF u = NAN \/ v = NAN THEN NAN ELSE RLerp(u, v, q)
\* set of admissible values of level data v: linear between the levels around z
LevelValues(prof, z, v, sbc, bbc) ==
    IF Above(prof, z) THEN {IF sbc = "mask" THEN MASKED ELSE v[TopIndex(prof)]}
    ELSE IF Below(prof, z) THEN {IF bbc = "mask" THEN MASKED ELSE v[BottomIndex(prof)]}
    ELSE {Blend(v[i], v[i + 1], FracIn(prof, i, z)) : i \in Holding(prof, z)}
         \cup (IF z = Top(prof) /\ sbc = "mask" THEN {MASKED} ELSE {})
         \cup (IF z = Bottom(prof) /\ bbc = "mask" THEN {MASKED} ELSE {})
\* layer data: constant over the layer, the outermost layers beyond the ends
LayerValues(prof, z, v, sbc, bbc) ==
    IF Above(prof, z) THEN {IF sbc = "mask" THEN MASKED ELSE v[IF Rising(prof) THEN 1 ELSE Len(v)]}
    ELSE IF Below(prof, z) THEN {IF bbc = "mask" THEN MASKED ELSE v[IF Rising(prof) THEN Len(v) ELSE 1]}
    ELSE {v[i] : i \in Holding(prof, z)}
         \cup (IF z = Top(prof) /\ sbc = "mask" THEN {MASKED} ELSE {})
         \cup (IF z = Bottom(prof) /\ bbc = "mask" THEN {MASKED} ELSE {})

(* ---------------- a variable with a vertical ---------------- *)
\* f: [times, v, holes]: v[k][j] the linear field of level (or layer) j at time k; holes: levels without data
ColumnAt(f, loc, t, p) == [j \in 1..Len(f.v[1]) |-> IF \E i \in 1..Len(f.holes) : f.holes[i] = j THEN NAN ELSE
    InTime(f.times, t, LAMBDA k : IF loc = "center" THEN Cell(f.v[k][j], p) ELSE Lin(f.v[k][j], p))]
InColumn(d, f, loc, t, p, sbc, bbc) ==
    LET v == ColumnAt(f, loc, t, p) IN
    IF d.kind = "surf" THEN {v[IF d.si < 0 THEN Len(v) + 1 + d.si ELSE d.si + 1]}
    ELSE IF NumLevels(d) = 1 THEN {v[1]}
    ELSE LET prof == Profile(d, t, p) IN
         IF Len(v) = NumLayers(d) THEN LayerValues(prof, p[3], v, sbc, bbc)
         ELSE LevelValues(prof, p[3], v, sbc, bbc)
\* off the grid horizontally: what the grid gives there; below or above the column may be masked as well
OffGrid(grid, d) == IF grid = "S" \/ d.kind = "roms" THEN {MASKED} ELSE {RZero, MASKED}

(* meta-properties *)
Between(v, a, b) == (RLe(a, v) /\ RLe(v, b)) \/ (RLe(b, v) /\ RLe(v, a))
Monotone(prof) == \A i \in 1..(Len(prof) - 1) : IF Rising(prof) THEN RLt(prof[i], prof[i + 1]) ELSE RLt(prof[i + 1], prof[i])
ExactAtLevels(prof, v) == \A i \in 1..Len(prof) :
    v[i] \in LevelValues(prof, prof[i], v, "extrapolate", "extrapolate") /\ LevelValues(prof, prof[i], v, "extrapolate", "extrapolate") = {v[i]}
NoOvershoot(prof, v, z) == \A x \in LevelValues(prof, z, v, "extrapolate", "extrapolate") :
    \E i \in 1..(Len(prof) - 1) : Between(x, v[i], v[i + 1])
Agree(prof, v, z, sbc, bbc) == \A x \in LevelValues(prof, z, v, sbc, bbc) :
    x = MASKED \/ \E q \in Positions(prof, z, sbc, bbc) : q # MASKED /\
        LET i == q[1] \div q[2] IN
        x = (IF q = R(i) THEN v[i + 1] ELSE RLerp(v[i + 1], v[i + 2], RSub(q, R(i))))
=============================================================================
