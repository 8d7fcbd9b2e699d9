------------------------------- MODULE RectModel -------------------------------
(* Rectangular grids: node longitudes and latitudes are two vectors (either   *)
(* may ascend or descend), data[j][i] belongs to the node (lat j, lon i).     *)
(* Node coordinates are integers, points are given in quarters <<4x, 4y>>.    *)
EXTENDS Rat, FiniteSets

Lo(a, b) == IF a <= b THEN a ELSE b
Hi(a, b) == IF a <= b THEN b ELSE a
\* intervals (1-based) of the axis whose closed range holds the coordinate q (quarters)
Intervals(ax, q) == {i \in 1..(Len(ax) - 1) : 4 * Lo(ax[i], ax[i + 1]) <= q /\ q <= 4 * Hi(ax[i], ax[i + 1])}
\* ... strictly inside the range of the axis
First(ax) == 4 * Lo(ax[1], ax[Len(ax)])
Last(ax) == 4 * Hi(ax[1], ax[Len(ax)])
StrictlyIn(ax, q) == First(ax) < q /\ q < Last(ax)

OnGrid(g, p) == Intervals(g.lons, p[1]) # {} /\ Intervals(g.lats, p[2]) # {}

(* ---- which cell: (lon index, lat index), 0-based; (-1, -1) = off the grid ---- *)
\* a point on a line between cells may be given to either; one on the outer boundary also to none
LocateOk(g, p, r) ==
    \/ /\ (r[1] + 1) \in Intervals(g.lons, p[1])
       /\ (r[2] + 1) \in Intervals(g.lats, p[2])
    \/ /\ r = <<-1, -1>>
       /\ ~(StrictlyIn(g.lons, p[1]) /\ StrictlyIn(g.lats, p[2]))

(* ---- bilinear interpolation; 0 off the grid ---- *)
Weight(ax, i, q) == Frac(q - 4 * ax[i], 4 * (ax[i + 1] - ax[i]))
InCell(g, d, p, i, j) ==
    LET wx == Weight(g.lons, i, p[1])
        wy == Weight(g.lats, j, p[2])
    IN RLerp(RLerp(R(d[j][i]), R(d[j][i + 1]), wx), RLerp(R(d[j + 1][i]), R(d[j + 1][i + 1]), wx), wy)
RectValue(g, d, p) ==
    IF ~OnGrid(g, p) THEN RZero
    ELSE InCell(g, d, p, CHOOSE i \in Intervals(g.lons, p[1]) : TRUE, CHOOSE j \in Intervals(g.lats, p[2]) : TRUE)

(* ---- orientation: is the data (lat, lon) or (lon, lat)? ---- *)
\* dims: "none" (no names), "latlon", "lonlat", "other"; shape: sizes of the last two dimensions
Fits(g, sh) == sh[1] \in {Len(g.lons), Len(g.lats)} /\ sh[2] \in {Len(g.lons), Len(g.lats)}
OrientOutcome(g, dims, sh) ==
    IF dims = "other" \/ ~Fits(g, sh) \/ (dims = "none" /\ sh[1] = sh[2]) THEN "err:ValueError" ELSE "ok"

Location(g, sh) == IF sh = <<Len(g.lats), Len(g.lons)>> THEN "node"
                   ELSE IF sh \in {<<Len(g.lats) + 1, Len(g.lons) + 1>>, <<Len(g.lats) - 1, Len(g.lons) - 1>>} THEN "center"
                   ELSE "none"

(* ---- meta-properties ---- *)
Corners(d, i, j) == {d[j][i], d[j][i + 1], d[j + 1][i], d[j + 1][i + 1]}
\* cells that share the point agree on it: the interpolation is continuous
Continuous(g, d, p) == \A i1, i2 \in Intervals(g.lons, p[1]) : \A j1, j2 \in Intervals(g.lats, p[2]) :
                         InCell(g, d, p, i1, j1) = InCell(g, d, p, i2, j2)
\* never outside the range of the cell's corners
NoOvershoot(g, d, p) == \A i \in Intervals(g.lons, p[1]) : \A j \in Intervals(g.lats, p[2]) :
                         LET v == InCell(g, d, p, i, j) IN
                           (\E c \in Corners(d, i, j) : RLe(R(c), v)) /\ (\E c \in Corners(d, i, j) : RLe(v, R(c)))
ExactAtNodes(g, d) == \A i \in 1..Len(g.lons) : \A j \in 1..Len(g.lats) :
                         RectValue(g, d, <<4 * g.lons[i], 4 * g.lats[j]>>) = R(d[j][i])
=============================================================================
