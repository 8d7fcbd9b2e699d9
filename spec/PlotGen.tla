-------------------------------- MODULE PlotGen --------------------------------
(* Every short history of events on a drawing of two cells that share a side.  *)
EXTENDS Plot, TLC, Json
VARIABLES v, hist
CONSTANT Depth
Nodes == <<<<0, 0>>, <<2, 0>>, <<2, 2>>, <<0, 2>>>>
Faces == <<<<0, 1, 2>>, <<0, 2, 3>>>>
Points == [a |-> <<6, 2>>, b |-> <<2, 6>>, side |-> <<4, 4>>, rim |-> <<0, 4>>, off |-> <<12, 4>>]
Events == {[k |-> "at", button |-> b, at |-> n, p |-> Points[n]] : b \in {1}, n \in DOMAIN Points}
          \cup {[k |-> "at", button |-> b, at |-> "a", p |-> Points.a] : b \in {2, 3}}
          \cup {[k |-> "margin", button |-> 1, at |-> "", p |-> <<0, 0>>], [k |-> "reopen", button |-> 0, at |-> "", p |-> <<0, 0>>]}
Init == v = Fresh /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E e \in Events : \E w \in After(Nodes, Faces, v, e) : v' = w /\ hist' = Append(hist, e)
Spec == Init /\ [][Next]_<<v, hist>>

\* the cell shown is the last one picked
Last == v.shown = (IF v.rows = <<>> THEN -1 ELSE v.rows[Len(v.rows)])
\* since the drawing was opened, at most one row for each left click in a cell, at least one for each well inside of it
Opened == LET R0 == {i \in DOMAIN hist : hist[i].k = "reopen"} IN IF R0 = {} THEN 0 ELSE Max(R0)
Since == {i \in DOMAIN hist : i > Opened /\ hist[i].k = "at" /\ hist[i].button = 1}
Counted == /\ Len(v.rows) <= Cardinality({i \in Since : hist[i].at # "off"})
           /\ Len(v.rows) >= Cardinality({i \in Since : hist[i].at \in {"a", "b", "side"}})
\* the picks of one cell are as many as the clicks in it, the shared side aside
Fair == (\A i \in Since : hist[i].at \in {"a", "b", "off"}) =>
          Cardinality({i \in DOMAIN v.rows : v.rows[i] = 0}) = Cardinality({i \in Since : hist[i].at = "a"})
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
\* the seam of the map
Seam == \A x \in -180 .. 360 : ShownLon(x) \in -180 .. 180 /\ (x - ShownLon(x)) % 360 = 0
Box == \A o \in {-180, -3, 0, 100, 178, 181, 358} : OneSided(Nodes, o) /\
          LET s == Shown(Nodes, o) IN /\ Extent(s, 0) = <<R(s[1][1]), R(s[2][1]), R(0), R(2)>>
                                      /\ s[2][1] - s[1][1] = 2
\* a place on the map is found where the file has it, also when the mesh goes across the seam
Found == \A o \in {-180, -3, 0, 100, 178, 179, 180, 181, 358} : \A n \in DOMAIN Points :
    LET p == Points[n]  x == p[1] + 4 * o  m == <<IF x > 720 THEN x - 1440 ELSE x, p[2]>> IN
    (o >= 0 \/ OneSided(Nodes, o)) => Holders(Stored(Nodes, o), Faces, InFile(Nodes, o, m)) = Holders(Nodes, Faces, p)
=============================================================================
