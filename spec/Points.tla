-------------------------------- MODULE Points --------------------------------
(* Points of a query, in whatever layout they come: as rows, as columns, as    *)
(* one flat point, with dimensions of length one.  An array is its shape and   *)
(* its numbers in row-major order.                                             *)
EXTENDS Integers, Sequences

Squeeze(sh) == SelectSeq(sh, LAMBDA d : d # 1)
Rows(r, k, v) == [i \in 1 .. r |-> [j \in 1 .. k |-> v[(i - 1) * k + j]]]
Cols(k, r, v) == [i \in 1 .. r |-> [j \in 1 .. k |-> v[(j - 1) * r + i]]]
Err == <<<<>>>>
\* the points, one row each; shapes of two or three by two or three are rows
Norm(sh, v) ==
    LET s == Squeeze(sh) IN
    CASE Len(s) = 1 -> (IF s[1] \in {2, 3} THEN <<v>> ELSE Err)
      [] Len(s) = 2 ->
           (IF s[1] \in {2, 3} /\ s[2] \in {2, 3} THEN Rows(s[1], s[2], v)
            ELSE IF s[1] > 3 /\ s[2] > 3 THEN Err
            ELSE IF s[1] = 0 THEN <<>>
            ELSE IF s[1] > s[2] THEN Rows(s[1], s[2], v) ELSE Cols(s[1], s[2], v))
      [] OTHER -> Err

\* the numbers of n points of k coordinates as rows or columns, and the shape of it
Flat(P, k) == [x \in 1 .. Len(P) * k |-> P[((x - 1) \div k) + 1][((x - 1) % k) + 1]]
FlatT(P, k) == [x \in 1 .. Len(P) * k |-> P[((x - 1) % Len(P)) + 1][((x - 1) \div Len(P)) + 1]]
Shape(lay, n, k) ==
    CASE lay = "rows" -> <<n, k>> [] lay = "cols" -> <<k, n>> [] lay = "flat" -> <<k>>
      [] lay = "rows1" -> <<1, n, k>> [] lay = "cols1" -> <<1, k, n>> [] lay = "tail" -> <<n, k, 1>> [] lay = "mid" -> <<n, 1, k>>
ByCols(lay) == lay \in {"cols", "cols1"}
Numbers(lay, P, k) == IF ByCols(lay) THEN FlatT(P, k) ELSE Flat(P, k)
Clear(lay, n, k) == ~ByCols(lay) \/ n \notin {0, 2, 3}
Layouts == {"rows", "cols", "flat", "rows1", "cols1", "tail", "mid"}
=============================================================================
