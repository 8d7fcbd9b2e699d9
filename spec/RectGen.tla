-------------------------------- MODULE RectGen --------------------------------
(* Grids, orientations and points for the rectangular grid, with the rules of *)
(* RectModel checked on each.                                                 *)
EXTENDS RectModel, TLC, Json
CONSTANTS Axes
VARIABLE c
AxesQuick == {<<0, 1>>, <<0, 2, 3>>, <<5, 3, -1>>, <<-2, 0, 4, 5>>, <<1, 0>>, <<3, 2, 0, -5>>}
AxesDeep == AxesQuick \cup {<<0, 1, 2, 3, 4>>, <<10, 8, 7, 3, 2>>, <<-3, 1, 2>>, <<0, 5>>}

\* quarters: on the nodes, between them, and outside
Qs(ax) == {4 * ax[i] : i \in 1..Len(ax)}
          \cup {2 * (ax[i] + ax[i + 1]) : i \in 1..(Len(ax) - 1)}
          \cup {3 * ax[i] + ax[i + 1] : i \in 1..(Len(ax) - 1)}
          \cup {First(ax) - 1, Last(ax) + 1, First(ax) - 40}
Init == \E lons, lats \in Axes, o \in {"latlon", "lonlat"}, dn \in {"none", "named"} :
           c = [lons |-> lons, lats |-> lats, order |-> o, dn |-> dn]
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Pts == {<<x, y>> : x \in Qs(c.lons), y \in Qs(c.lats)}
G == [lons |-> c.lons, lats |-> c.lats]
D == [j \in 1..Len(c.lats) |-> [i \in 1..Len(c.lons) |-> ((i * i * 7 + j * 5 * i + j * j) % 11) - 4]]
RECURSIVE S2S(_)
S2S(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : TRUE IN <<m>> \o S2S(S \ {m})
Inv == /\ ExactAtNodes(G, D)
       /\ \A p \in Pts : Continuous(G, D, p) /\ NoOvershoot(G, D, p)
       /\ \A p \in Pts : \E i \in -1..(Len(c.lons) - 2), j \in -1..(Len(c.lats) - 2) : LocateOk(G, p, <<i, j>>)
       /\ PrintT(ToJson([case |-> c, pts |-> S2S(Pts)]))
=============================================================================
