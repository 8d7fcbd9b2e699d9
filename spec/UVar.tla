--------------------------------- MODULE UVar ---------------------------------
(* Data held by the variables of the older interfaces (UVar, a group UMVar of  *)
(* them, SGridVariable) and what indexing them gives.  Data are sequences of   *)
(* whole numbers, HOLE where they are missing.  An item is a record            *)
(*   k   "int" | "slice" | "rev" | "list" | "mask" | "all"                     *)
(*   a   its numbers: <<i>>, <<from, to, step>>, <<>>, the list, the mask      *)
EXTENDS Integers, Sequences

HOLE == -998
Least(x, y) == IF x < y THEN x ELSE y
Inside(i, n) == -n <= i /\ i < n
At(i, n) == (IF i < 0 THEN i + n ELSE i) + 1

\* can the item be asked of n data
Fits(it, n) ==
    CASE it.k \in {"int", "list"} -> \A j \in 1..Len(it.a) : Inside(it.a[j], n)
      [] it.k = "mask" -> Len(it.a) = n
      [] OTHER -> TRUE
RECURSIVE Where(_, _)
Where(m, j) == IF j > Len(m) THEN <<>> ELSE (IF m[j] = 1 THEN <<j>> ELSE <<>>) \o Where(m, j + 1)
\* the places (from one) it names, in order
Places(it, n) ==
    CASE it.k \in {"int", "list"} -> [j \in 1..Len(it.a) |-> At(it.a[j], n)]
      [] it.k = "slice" -> LET b == Least(it.a[2], n)
                               m == IF it.a[1] >= b THEN 0 ELSE ((b - it.a[1]) + (it.a[3] - 1)) \div it.a[3]
                           IN [j \in 1..m |-> it.a[1] + (j - 1) * it.a[3] + 1]
      [] it.k = "rev" -> [j \in 1..n |-> n + 1 - j]
      [] it.k = "mask" -> Where(it.a, 1)
      [] OTHER -> [j \in 1..n |-> j]
Take(d, it) == LET p == Places(it, Len(d)) IN [j \in 1..Len(p) |-> d[p[j]]]
\* of several variables: one row for each place, a column for each variable
Stack(ds, it) == LET p == Places(it, Len(ds[1])) IN [j \in 1..Len(p) |-> [v \in 1..Len(ds) |-> ds[v][p[j]]]]
Dim(it) == IF it.k = "int" THEN 0 ELSE 1
Put(d, at, x) == [j \in 1..Len(d) |-> IF j - 1 = at THEN x ELSE d[j]]
===============================================================================
