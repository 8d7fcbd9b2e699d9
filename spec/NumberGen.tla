------------------------------- MODULE NumberGen -------------------------------
(* Numberings of faces: zero-based, one-based, out of range, negative.        *)
EXTENDS MeshModel, TLC, Json
VARIABLE c
N == 5
Init == \E a, b, d \in -2..6 : c = <<<<2, 3, a>>, <<b, 3, d>>>>
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
\* accepted faces always refer to existing nodes (or to none: -1)
Inv == /\ FacesOutcome(N, c) = "ok" => Used(Numbered(N, c)) \subseteq -1..(N - 1)
       /\ PrintT(ToJson([faces |-> c, n |-> N]))
=============================================================================
