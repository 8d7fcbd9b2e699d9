----------------------------- MODULE UGridFileGen -----------------------------
(* Every connectivity of a few shapes in every encoding a reader can tell      *)
(* apart; reading gives back what was written.                                 *)
EXTENDS UGridFile, TLC, Json
CONSTANTS MaxRows, MaxN
VARIABLE c
Shape(role, nv) == IF role \in {"edges", "bounds"} THEN 2 ELSE nv
\* a connectivity of m rows over numbers below n: rows of distinct, rotating numbers; the last number is used
Row(i, w, n) == [j \in 1..w |-> (n - 1) - (((i - 1) * 2 + (j - 1)) % n)]
Link(i, w, n) == [j \in 1..w |-> IF (i + j) % 3 = 0 THEN -1 ELSE (i + j) % n]
Init == \E role \in Roles, m \in 1..MaxRows, nv \in {3, 4}, n \in 4..MaxN, base \in {0, 1, 2}, layout \in {"C", "F"},
           start \in {"none", "0", "1", "2"}, holes \in BOOLEAN, flag \in {NOFLAG, -1}, dim \in {"none", "first", "last"} :
          LET w == Shape(role, nv)
              b == [i \in 1..m |-> IF flag = -1 THEN Link(i, w, n) ELSE Row(i, w, n)]
              \* all but the first row may be shorter
              a == [i \in 1..m |-> [j \in 1..w |-> IF holes /\ i > 1 /\ j = w THEN HOLE ELSE b[i][j]]]
          IN /\ holes => m > 1 /\ w = 4 /\ role \in {"faces", "ff", "fe"} /\ flag = NOFLAG
             /\ flag = -1 => role \in {"ff", "fe"}
             /\ Honest(role, a, n, base, layout, start, flag, dim)
             /\ c = [role |-> role, n |-> n, w |-> w, base |-> base, layout |-> layout, start |-> start,
                     flag |-> flag, dim |-> dim, want |-> a, s |-> Encode(a, base, layout, start, flag, dim)]
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Inv == /\ Decode(c.role, c.s, c.n) = c.want
       /\ PrintT(ToJson(c))
=============================================================================
