------------------------------- MODULE UGridFile -------------------------------
(* Meshes in UGRID files.  A mesh is a record                                  *)
(*   n       number of nodes                                                   *)
(*   faces, edges, bounds, ff, fe   connectivities: sequences of rows of       *)
(*           0-based numbers; <<>> = not there                                 *)
(* A connectivity is stored in a file as a record                              *)
(*   a      the stored array, a sequence of rows                               *)
(*   start  "none" | "0" | "1" | ...: the start_index attribute                *)
(*   flag   the flag_values attribute, or NOFLAG                               *)
(*   dim    "none" | "first" | "last": which of its dimensions the mesh        *)
(*          declares to be that of the faces (edges)                           *)
EXTENDS Integers, Sequences, FiniteSets

NOFLAG == 99999
\* an entry that is missing: a face of fewer corners than the longest
HOLE == -998
Roles == {"faces", "edges", "bounds", "ff", "fe"}
\* what tells an array of indices: the length of the rows the reader expects
RowLen(role) == IF role \in {"edges", "bounds"} THEN 2 ELSE 3

Transpose(a) == [i \in 1..Len(a[1]) |-> [j \in 1..Len(a) |-> a[j][i]]]
Entries(a) == UNION {{a[i][j] : j \in 1..Len(a[i])} : i \in 1..Len(a)} \ {HOLE}
MaxEntry(a) == CHOOSE x \in Entries(a) : \A y \in Entries(a) : y <= x
Map(a, f(_)) == [i \in 1..Len(a) |-> [j \in 1..Len(a[i]) |-> IF a[i][j] = HOLE THEN HOLE ELSE f(a[i][j])]]

(* ---- reading ---- *)
\* the dimension declared by the mesh decides; else rows of the expected length
Rows(role, s) ==
    IF s.dim = "first" THEN s.a
    ELSE IF s.dim = "last" THEN Transpose(s.a)
    ELSE IF Len(s.a) = RowLen(role) /\ Len(s.a[1]) # RowLen(role) THEN Transpose(s.a) ELSE s.a
Digit == [x \in {"0", "1", "2", "3", "5"} |-> CASE x = "0" -> 0 [] x = "1" -> 1 [] x = "2" -> 2 [] x = "3" -> 3 [] OTHER -> 5]
Start(s, n) == IF s.start \in DOMAIN Digit THEN Digit[s.start]
               ELSE IF MaxEntry(s.a) = n THEN 1 ELSE 0
Decode(role, s, n) ==
    LET k == Start(s, n)
        One(x) == IF k >= 1 /\ s.flag # NOFLAG /\ x = s.flag THEN x ELSE x - k
    IN Map(Rows(role, s), One)

(* ---- writing ---- *)
Encode(a, base, layout, start, flag, dim) ==
    LET One(x) == IF flag # NOFLAG /\ x = flag THEN x ELSE x + base
        b == Map(a, One)
    IN [a |-> IF layout = "F" THEN Transpose(b) ELSE b, start |-> start, flag |-> flag, dim |-> dim]

\* the encodings a reader can tell apart
Honest(role, a, n, base, layout, start, flag, dim) ==
    LET e == Encode(a, base, layout, start, flag, dim) IN
    /\ start \in DOMAIN Digit => base = Digit[start]
    \* without start_index numbers count from one exactly when the last node is used as such
    /\ start = "none" => role \in {"faces", "edges", "bounds"} /\ flag = NOFLAG /\ base \in {0, 1}
                         /\ (base = 1 <=> MaxEntry(e.a) = n)
    /\ dim = "first" => layout = "C"
    /\ dim = "last" => layout = "F"
    /\ dim = "none" => IF layout = "F" THEN Len(e.a) = RowLen(role) /\ Len(e.a[1]) # RowLen(role)
                       ELSE ~(Len(e.a) = RowLen(role) /\ Len(e.a[1]) # RowLen(role))
    /\ role = "bounds" => dim = "none"

RoundTrip(role, a, n, base, layout, start, flag, dim) ==
    Honest(role, a, n, base, layout, start, flag, dim)
        => Decode(role, Encode(a, base, layout, start, flag, dim), n) = a

(* ---- which mesh ---- *)
\* vars: names of the mesh topology variables of the file; asked: "" = any
PickOutcomes(vars, asked) ==
    IF asked = "" THEN IF Cardinality(vars) = 1 THEN {"ok"} ELSE {"err:ValueError"}
    ELSE IF asked \in vars THEN {"ok"} ELSE {"err:ValueError"}
Picked(vars, asked) == IF asked = "" THEN CHOOSE v \in vars : TRUE ELSE asked

(* ---- coordinate variables: how a file tells which is which ---- *)
\* tells: the words attached to the two variables; "" where there is none
IsLon(t) == t \in {"longitude", "projection_x_coordinate", "degrees_east", "degree_east", "degree_E", "degrees_E",
                   "degreeE", "degreesE"}
IsLat(t) == t \in {"latitude", "projection_y_coordinate", "degrees_north", "degree_north", "degree_N", "degrees_N",
                   "degreeN", "degreesN"}
CoordOutcomes(tells) == IF \A i \in 1..Len(tells) : IsLon(tells[i]) \/ IsLat(tells[i]) THEN {"ok"} ELSE {"err:ValueError"}

(* ---- non-standard files: variables of well-known names ---- *)
\* faces are turned when they come as three rows, and count from one exactly when the largest is that of nodes
NamedFaces(a, n) == LET b == IF Len(a) = 3 THEN Transpose(a) ELSE a
                        k == IF MaxEntry(b) = n THEN 1 ELSE 0
                        One(x) == x - k
                    IN Map(b, One)

(* ---- other non-standard files: the roles of the variables are given by the caller ---- *)
\* there are more faces than corners; numbers count from one exactly when one is the smallest of the faces
MinEntry(a) == CHOOSE x \in Entries(a) : \A y \in Entries(a) : x <= y
MappedRows(a) == IF Len(a) <= Len(a[1]) THEN Transpose(a) ELSE a
MappedBase(faces) == IF faces # <<>> /\ MinEntry(faces) = 1 THEN 1 ELSE 0
Mapped(a, faces) == IF a = <<>> THEN <<>> ELSE LET One(x) == x - MappedBase(faces) IN Map(MappedRows(a), One)
\* of the boundaries the first two columns
MappedBounds(a, faces) == [i \in 1..Len(a) |-> [j \in 1..2 |-> a[i][j] - MappedBase(faces)]]

(* ---- equality: the same nodes, faces and boundaries (and nothing else) of the same kind of grid ---- *)
SameMesh(m1, m2) == m1.nodes = m2.nodes /\ m1.faces = m2.faces /\ m1.bounds = m2.bounds
=============================================================================
