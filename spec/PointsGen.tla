------------------------------- MODULE PointsGen ------------------------------
(* Every layout of up to six points.                                           *)
EXTENDS Points, TLC, Json
VARIABLE c
Init == \E lay \in Layouts, n \in 0 .. 6, k \in 2 .. 3 :
          /\ c = [lay |-> lay, n |-> n, k |-> k]
          /\ (lay = "flat" => n = 1)
          /\ (ByCols(lay) => n # 0)
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
P == [i \in 1 .. c.n |-> [j \in 1 .. c.k |-> 10 * i + j]]
Sh == Shape(c.lay, c.n, c.k)
Nm == Norm(Sh, Numbers(c.lay, P, c.k))
\* the points come back whatever their layout
Back == Clear(c.lay, c.n, c.k) => Nm = P
\* what is normal stays so
Again == Nm # <<>> /\ Nm # Err => Norm(<<Len(Nm), Len(Nm[1])>>, Flat(Nm, Len(Nm[1]))) = Nm
\* too many coordinates, or too few, are none
Wrong == Norm(<<5, 4>>, [i \in 1 .. 20 |-> i]) = Err /\ Norm(<<4>>, <<1, 2, 3, 4>>) = Err /\ Norm(<<1>>, <<1>>) = Err
Emit == PrintT(ToJson(c))
=============================================================================
