----------------------------- MODULE SGridFileGen -----------------------------
(* Every staggered grid of a size in every way of declaring it.                *)
EXTENDS SGridFile, TLC, Json
CONSTANTS Sizes, Deep
VARIABLE c
SzQ == {<<3, 4>>, <<4, 3>>}
SzD == {<<2, 2>>, <<2, 3>>, <<3, 3>>, <<3, 2>>, <<4, 3>>, <<3, 5>>}
Init == \E n \in Sizes, ord \in {"c", "f"}, p1 \in Pads, p2 \in Pads, es \in {"own", "shared", "none"}, epad \in Pads,
           vert \in {"absent", "none", "low"}, nodec \in {"attr", "name", "std", "none"}, facec \in {"attr", "loc", "dims", "none"},
           edgec \in {"attr", "loc", "none"} :
          /\ epad = "none" \/ es = "own"
          \* the ways of finding coordinates do not depend on each other
          /\ Deep \/ Cardinality({x \in {1, 2, 3} : <<nodec, facec, edgec>>[x] # "attr"}) <= 1
          /\ nodec = "none" => facec = "attr" /\ edgec # "loc"
          /\ c = [n |-> n, ord |-> ord, pad |-> <<p1, p2>>, es |-> es, epad |-> epad, vert |-> vert,
                  nodec |-> nodec, facec |-> facec, edgec |-> edgec]
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
\* what is left after cutting is one value per cell, whatever the padding
PerCell == \A loc \in {"face", "edge1", "edge2"}, a \in {1, 2} :
              PadOn(c, loc, a) # "no" => LET k == AxisCut(c, loc, a) IN Size(c, loc, a) - k[1] + k[2] = c.n[a] - 1
\* the two kinds of edges are padded on different axes, and averaged along different axes
Apart == PadAxis(c, "edge1") # PadAxis(c, "edge2")
\* averaging gives values for cells: the average of edges i and i+1 lies between them
Between == \A loc \in {"edge1", "edge2"} :
              LET m == Means(c, [loc |-> loc])
              IN \A i \in DOMAIN m, j \in DOMAIN m[1] : m[i][j] >= 0
                    /\ (j < c.n[2] - 1 => m[i][j + 1] - m[i][j] = 2) /\ (i < c.n[1] - 1 => m[i + 1][j] - m[i][j] = 20)
Emit == PrintT(ToJson(c))
=============================================================================
