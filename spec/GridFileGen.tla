------------------------------ MODULE GridFileGen -----------------------------
(* Every combination of what can say of which kind a grid is.                  *)
EXTENDS GridFile, TLC, Json
VARIABLE c
Init == \E arg \in {"", "u", "s", "r", "bad"}, topo \in {"none", "faces", "u", "r", "s", "plain"}, attr \in {"", "u", "s", "r", "other"},
           tvar \in {"none", "u", "s"}, nodes \in {"none", "1d", "2d", "comp"}, faces \in BOOLEAN :
          /\ c = [arg |-> arg, topo |-> topo, attr |-> attr, tvar |-> tvar, nodes |-> nodes, faces |-> faces]
          /\ Meant(c)
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
\* who asks for a kind gets it or an error
Asked == c.arg \in Types => Kind(c) = c.arg
\* the dictionary, then the file's attribute, then its topology variable decide: what comes later in this order changes nothing
Order == /\ (c.arg # "" => \A t \in {"none", "faces", "r", "s"} : Kind([c EXCEPT !.topo = t]) = Kind(c))
         /\ (c.arg # "" \/ c.topo # "none" => \A t \in {"", "u", "s", "r"} : Kind([c EXCEPT !.attr = t]) = Kind(c))
         /\ (c.arg # "" \/ c.topo # "none" \/ c.attr \in Types => \A t \in {"none", "u", "s"} : Kind([c EXCEPT !.tvar = t]) = Kind(c))
         /\ (c.tvar # "none" => \A t \in {"1d", "2d"}, f \in BOOLEAN : Kind([c EXCEPT !.nodes = t, !.faces = f]) = Kind(c))
\* an attribute that names no kind is as good as none
Other == c.attr = "other" => Kind(c) = Kind([c EXCEPT !.attr = ""])
\* names alone decide only what they can load
Named == Source(c) = "names" /\ c.arg = "" /\ c.attr \notin Types /\ c.nodes # "none" => Loads(c)
Emit == PrintT(ToJson(c))
=============================================================================
