-------------------------------- MODULE MasksGen ------------------------------
(* Every way to say what is land; every mask of the nodes of four cells.       *)
EXTENDS Masks, TLC, Json, FiniteSets
VARIABLE c
Kinds == {"water", "lake", "river", "land", "other"}
Vals == {<<0, 1, 2>>, <<1, 0, 2>>, <<2, 1, 0>>, <<1, 2, 5>>, <<0, 5, 1>>}
Flags(n, ks, vs) == [i \in 1 .. n |-> [v |-> vs[i], kind |-> ks[i]]]
Init == \/ \E n \in 1 .. 3, ks \in [1 .. 3 -> Kinds], vs \in Vals :
             /\ \A i \in n + 1 .. 3 : ks[i] = "land"
             /\ c = [what |-> "say", style |-> "flags", flags |-> Flags(n, ks, vs)]
        \/ \E s \in {"options", "plain"} : c = [what |-> "say", style |-> s, flags |-> <<>>]
        \/ \E M \in [1 .. 3 -> [1 .. 3 -> BOOLEAN]] : c = [what |-> "nodes", style |-> "plain", flags |-> <<>>, m |-> M]
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Swap(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
\* flags may come in any order; what no flag names, and what is missing, is land
Order == c.what = "say" => \A v \in {0, 1, 2, 5} : Land(c, v) = Land([c EXCEPT !.flags = Swap(c.flags)], v)
Unknown == c.what = "say" /\ c.style = "flags" => Land(c, 77) /\ Land(c, Missing)
\* saying land and water with flags 0 and 1 is saying it with options
Options == LET f == [style |-> "flags", flags |-> <<[v |-> 0, kind |-> "land"], [v |-> 1, kind |-> "water"]>>]
           IN \A v \in {0, 1, 2, Missing} : Land(f, v) = Land([style |-> "options", flags |-> <<>>], v)
\* more masked nodes never free a cell; a cell is free only with all its corners
Cells(M) == {p \in (1 .. 2) \X (1 .. 2) : ~CellOfNodes(M, p[1], p[2])}
Monotone == c.what = "nodes" => \A j, i \in 1 .. 3 : Cells([c.m EXCEPT ![j][i] = TRUE]) \subseteq Cells(c.m)
All4 == c.what = "nodes" => (Cardinality(Cells(c.m)) = 4 <=> \A j, i \in 1 .. 3 : ~c.m[j][i])
Emit == PrintT(ToJson(c))
=============================================================================
