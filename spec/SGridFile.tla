------------------------------- MODULE SGridFile -------------------------------
(* Staggered grids in files (SGRID conventions).  A grid of n[1] x n[2] nodes; *)
(* the arrays of its cell centres and of its two kinds of edges run along the  *)
(* same two axes, on a padded axis with one value per cell plus padding.  The  *)
(* topology lists the dimensions in the order of the arrays' axes ("c") or the *)
(* other way round ("f"); edge1 is padded in the dimension listed second.      *)
EXTENDS Integers, Sequences, FiniteSets

Pads == {"none", "low", "high", "both"}
Extra(p) == IF p = "none" THEN 0 ELSE IF p = "both" THEN 2 ELSE 1
\* what to leave out at either end to be left with one value per cell
Cut(p) == IF p = "both" THEN <<1, -1>> ELSE IF p = "low" THEN <<1, 0>> ELSE IF p = "high" THEN <<0, -1>> ELSE <<0, 0>>
Locs == {"node", "face", "edge1", "edge2"}
IsEdge(loc) == loc \in {"edge1", "edge2"}
\* the axis on which the edges of a kind are padded
PadAxis(c, loc) == IF (loc = "edge1") = (c.ord = "f") THEN 1 ELSE 2
PadOn(c, loc, a) == CASE loc = "node" -> "no"
                      [] loc = "face" -> c.pad[a]
                      [] OTHER -> IF a # PadAxis(c, loc) THEN "no" ELSE IF c.es = "own" THEN c.epad ELSE c.pad[a]
Size(c, loc, a) == LET p == PadOn(c, loc, a) IN IF p = "no" THEN c.n[a] ELSE c.n[a] - 1 + Extra(p)
Shape(c, loc) == <<Size(c, loc, 1), Size(c, loc, 2)>>

\* a variable: loc, lead (names of its leading dimensions), grid, locattr
LeadCut(c, d) == IF d = "ku" /\ c.vert # "absent" THEN Cut(c.vert) ELSE <<0, 0>>
AxisCut(c, loc, a) == LET p == PadOn(c, loc, a) IN IF p = "no" THEN <<0, 0>> ELSE Cut(p)
VarCut(c, v) == [i \in 1..(Len(v.lead) + 2) |->
                   IF i <= Len(v.lead) THEN LeadCut(c, v.lead[i]) ELSE AxisCut(c, v.loc, i - Len(v.lead))]
\* edges are named after the axis they are padded on, unless the file names them
Location(c, v) == IF v.locattr # "" THEN {v.locattr}
                  ELSE IF v.loc = "face" THEN {"face"}
                  ELSE IF IsEdge(v.loc) /\ v.grid THEN {IF PadAxis(c, v.loc) = 1 THEN "edge1" ELSE "edge2"}
                  ELSE {"node", "", "edge1", "edge2"}
\* values of edges are averaged along the other axis (0 or 1) to get to the centres
AvgAxis(c, v) == 2 - PadAxis(c, v.loc)
\* twice the average of the value 10i + j at a position, for the cell in row i and column j
TwiceMean(c, v, i, j) ==
    LET a == PadAxis(c, v.loc)
        lo == AxisCut(c, v.loc, a)[1]
        At(x, y) == 10 * x + y
    IN IF a = 1 THEN At(i + lo, j) + At(i + lo, j + 1) ELSE At(i, j + lo) + At(i + 1, j + lo)
Means(c, v) == [i \in 1..(c.n[1] - 1) |-> [j \in 1..(c.n[2] - 1) |-> TwiceMean(c, v, i - 1, j - 1)]]

\* what is known about a location
Known(c, loc) == CASE loc = "node" -> c.nodec # "none" [] loc = "face" -> c.facec # "none" [] OTHER -> c.edgec # "none"
\* the mask of a location: the first variable called mask on its dimensions, 0 if there is none; swap: on these the other way around
IsOn(m, loc) == m.loc = loc /\ ~m.swap
First(s, loc) == IF \E i \in DOMAIN s : IsOn(s[i], loc) THEN CHOOSE i \in DOMAIN s : IsOn(s[i], loc) /\ \A k \in 1..(i - 1) : ~IsOn(s[k], loc) ELSE 0
MaskShape(c, m) == LET s == Shape(c, m.loc) IN IF m.swap THEN <<s[2], s[1]>> ELSE s
\* masks elsewhere that could be mistaken for it
Alike(c, masks, loc) == {i \in DOMAIN masks : MaskShape(c, masks[i]) = Shape(c, loc)}
=============================================================================
