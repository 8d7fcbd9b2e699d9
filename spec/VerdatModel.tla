------------------------------ MODULE VerdatModel ------------------------------
(* Verdat files: points with depths, those of the closed boundaries first.     *)
(* Boundaries are given as segments <<a, b>> between 0-based nodes; every node *)
(* is on at most two of them, so the segments fall into closed loops and open  *)
(* lines.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == {s[i] : i \in DOMAIN s}
Edges(segs) == {{segs[i][1], segs[i][2]} : i \in DOMAIN segs}
NodesOf(E) == UNION E
Degree(E, v) == Cardinality({e \in E : v \in e})
\* segments that hang together
\* (C so far, whose segments in F are new)
RECURSIVE Grow(_, _, _)
Grow(E, C, F) == LET V == UNION F
                     more == {e \in E \ C : e \cap V # {}}
                 IN IF more = {} THEN C ELSE Grow(E, C \cup more, more)
RECURSIVE Components(_)
Components(E) == IF E = {} THEN {} ELSE LET e == CHOOSE x \in E : TRUE
                                            C == Grow(E, {e}, {e})
                                        IN {C} \cup Components(E \ C)
Closed(E) == {C \in Components(E) : \A v \in NodesOf(C) : Degree(C, v) = 2}
Open(E) == Components(E) \ Closed(E)

\* a sequence of nodes as a loop, as a line
LoopEdges(p) == {{p[i], p[IF i = Len(p) THEN 1 ELSE i + 1]} : i \in 1..Len(p)}
LineEdges(p) == {{p[i], p[i + 1]} : i \in 1..(Len(p) - 1)}
Distinct(p) == Cardinality(Range(p)) = Len(p)
\* the closed loops and open lines of the segments, each once, each in order
LoopsOk(E, loops) == /\ \A i \in DOMAIN loops : Distinct(loops[i])
                     /\ {LoopEdges(loops[i]) : i \in DOMAIN loops} = Closed(E)
                     /\ Len(loops) = Cardinality(Closed(E))
LinesOk(E, lines) == /\ \A i \in DOMAIN lines : Distinct(lines[i])
                     /\ {LineEdges(lines[i]) : i \in DOMAIN lines} = Open(E)
                     /\ Len(lines) = Cardinality(Open(E))

(* ---- the file ---- *)
\* pts: nodes in the order written; ends: number of points written at the end of each loop
Slice(s, a, b) == [i \in 1..(b - a) |-> s[a + i]]
LoopsOf(pts, ends) == [k \in 1..Len(ends) |-> Slice(pts, IF k = 1 THEN 0 ELSE ends[k - 1], ends[k])]
EndsOk(n, ends) == \A k \in 1..Len(ends) : ends[k] > (IF k = 1 THEN 0 ELSE ends[k - 1]) /\ ends[k] <= n
Last(s) == IF s = <<>> THEN 0 ELSE s[Len(s)]
FieldOk(n, pts, ends) == \A i \in (Last(ends) + 1)..(n - 1) : pts[i] < pts[i + 1]
PointsOk(n, pts) == Len(pts) = n /\ Range(pts) = 0..(n - 1)

\* numbers of the boundary segments a reader makes of the ends
RECURSIVE ReadBounds(_, _)
ReadBounds(ends, k) ==
    IF k > Len(ends) THEN <<>>
    ELSE LET a == IF k = 1 THEN 0 ELSE ends[k - 1]  b == ends[k]
         IN [i \in 1..(b - a) |-> <<a + i - 1, IF a + i = b THEN a ELSE a + i>>] \o ReadBounds(ends, k + 1)

Feet == {"foot", "ft", "feet"}
Metres == {"meter", "m", "meters", "metre"}
Header(u) == IF u \in Feet THEN "FEET" ELSE IF u \in Metres THEN "METERS" ELSE ""
=============================================================================
