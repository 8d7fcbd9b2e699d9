--------------------------------- MODULE Masks --------------------------------
(* Land and water: what the masks of files mean, and which cells they take.    *)
EXTENDS Integers, Sequences

WaterKinds == {"water", "lake", "river"}
Missing == -99
\* a mask: flags give values meanings; options: 0 is land and 1 water; else what is not zero is masked
Land(m, v) ==
    CASE m.style = "flags" -> (LET hit == {i \in DOMAIN m.flags : m.flags[i].v = v}
                               IN hit = {} \/ \E i \in hit : m.flags[i].kind \notin WaterKinds)
      [] m.style = "options" -> v # 1
      [] m.style = "plain" -> v # 0

\* masks over cells: centers may be padded by one cell on each side; a cell without a wet corner at each of its corners is masked
CellOfCenter(M, pad, j, i) == M[j + pad][i + pad]
CellOfNodes(M, j, i) == M[j][i] \/ M[j + 1][i] \/ M[j][i + 1] \/ M[j + 1][i + 1]

\* whether masked cells are left out: as asked; by default as the tree was last built, or so
InForce(builds, u) == IF u # "default" THEN u = "with" ELSE IF builds = <<>> THEN TRUE ELSE builds[Len(builds)]
=============================================================================
