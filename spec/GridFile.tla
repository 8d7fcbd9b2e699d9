------------------------------- MODULE GridFile -------------------------------
(* What kind of grid a file holds, and which of its variables are its arrays,  *)
(* when the caller, a dictionary, an attribute of the file, a topology         *)
(* variable or nothing but the names of the variables says so.                 *)
EXTENDS Integers, Sequences, FiniteSets

(* A case: what the caller asks for (arg: "" nothing, "bad" no such type),     *)
(* the dictionary (topo: "none", or with faces, or naming a type, or neither), *)
(* the file's grid_type (attr), its topology variable (tvar), how its          *)
(* conventionally named nodes are stored, and whether it has faces.            *)
Types == {"u", "s", "r"}
NodeNames == <<<<"node_lon", "node_lat">>, <<"lon", "lat">>, <<"lon_psi", "lat_psi">>, <<"longitude", "latitude">>>>
CompNames == <<"nodes", "node">>
FaceNames == <<"faces", "tris", "nv", "ele", "nele">>
Pairs == [node |-> NodeNames,
          center |-> <<<<"center_lon", "center_lat">>, <<"lon_rho", "lat_rho">>, <<"lonc", "latc">>>>,
          edge1 |-> <<<<"edge1_lon", "edge1_lat">>, <<"lon_u", "lat_u">>>>,
          edge2 |-> <<<<"edge2_lon", "edge2_lat">>, <<"lon_v", "lat_v">>>>]
MaskName == [node |-> "mask_psi", center |-> "mask_rho", edge1 |-> "mask_u", edge2 |-> "mask_v"]
Locs == {"node", "center", "edge1", "edge2"}

ByTopo(c) == CASE c.topo \in {"faces", "u"} -> "u" [] c.topo = "r" -> "r" [] OTHER -> "s"
ByNames(c) == IF c.nodes = "none" THEN "err"
              ELSE IF c.faces THEN "u"
              ELSE IF c.nodes = "1d" THEN "r" ELSE "s"
Kind(c) == IF c.arg # "" THEN (IF c.arg = "bad" THEN "err" ELSE c.arg)
           ELSE IF c.topo # "none" THEN ByTopo(c)
           ELSE IF c.attr \in Types THEN c.attr
           ELSE IF c.tvar # "none" THEN c.tvar
           ELSE ByNames(c)
\* where the arrays are then looked for
Source(c) == IF c.topo # "none" THEN "dict" ELSE IF c.tvar # "none" THEN "convention" ELSE "names"
\* the arrays a grid of the kind needs are there
Loads(c) ==
    LET k == Kind(c) IN
    CASE k = "err" -> FALSE
      [] Source(c) = "convention" -> TRUE
      [] k = "u" -> c.nodes # "none" /\ c.faces
      [] k = "r" -> c.nodes \in {"1d", "comp"}
      [] k = "s" -> c.nodes # "none"
\* the cases that have a meaning: a topology variable read as another kind of grid has none, nor has a dictionary that
\* leaves out what its kind needs
Meant(c) ==
    /\ (c.faces => c.nodes # "2d")
    /\ (c.nodes = "comp" => c.faces /\ Kind(c) = "u")
    /\ (Source(c) = "convention" /\ Kind(c) # "err" => Kind(c) = c.tvar)
    /\ (Source(c) = "dict" =>
          /\ c.nodes # "none"
          /\ (c.topo = "faces" => c.faces)
          /\ (Kind(c) = "u" => c.topo = "faces"))

\* the first of the alternatives that the file has
RECURSIVE FirstOf(_, _, _)
FirstOf(alts, has(_), i) == IF i > Len(alts) THEN 0 ELSE IF has(alts[i]) THEN i ELSE FirstOf(alts, has, i + 1)
PairOf(loc, have) == LET HasBoth(p) == p[1] \in have /\ p[2] \in have
                         i == FirstOf(Pairs[loc], HasBoth, 1)
                     IN IF i = 0 THEN <<"", "">> ELSE Pairs[loc][i]
OneOf(names, have) == LET Has(n) == n \in have
                          i == FirstOf(names, Has, 1)
                      IN IF i = 0 THEN "" ELSE names[i]
\* the arrays of a grid found by names: which variable each one is
NodesByName(have) == LET p == PairOf("node", have)
                     IN IF p # <<"", "">> THEN p ELSE LET n == OneOf(CompNames, have) IN <<n, n>>
MaskByName(loc, have) == IF PairOf(loc, have) # <<"", "">> /\ MaskName[loc] \in have THEN MaskName[loc] ELSE ""

(* Where a variable is, from the sizes of its last dimensions.                 *)
LastOf(s, k) == s[Len(s) - k]
Inferred(k, n, center, e1, e2, sizes, reversed) ==
    IF k = "u" THEN (IF sizes = <<>> THEN "" ELSE IF LastOf(sizes, 0) = n[1] THEN "node" ELSE IF LastOf(sizes, 0) = n[2] THEN "face" ELSE "")
    ELSE IF Len(sizes) < 2 THEN ""
    ELSE LET a == LastOf(sizes, 1) - (IF reversed THEN n[2] ELSE n[1])
             b == LastOf(sizes, 0) - (IF reversed THEN n[1] ELSE n[2])
         IN IF a = 0 /\ b = 0 THEN "node"
            ELSE IF (a = 1 /\ b = 1) \/ (a = -1 /\ b = -1) THEN (IF center THEN "center" ELSE "")
            ELSE IF k = "s" /\ a = 1 /\ b = 0 /\ e1 THEN "edge1"
            ELSE IF k = "s" /\ a = 0 /\ b = 1 /\ e2 THEN "edge2"
            ELSE ""
Valid == {"center", "edge1", "edge2", "node", "face", "edge", "boundary"}
LocationOf(k, n, center, e1, e2, v) == IF v.locattr \in Valid THEN v.locattr ELSE Inferred(k, n, center, e1, e2, v.sizes, v.reversed)
=============================================================================
