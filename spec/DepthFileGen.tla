----------------------------- MODULE DepthFileGen -----------------------------
(* Every pattern of depth systems, whole and partial, named in either way.     *)
EXTENDS DepthFile, TLC, Json
VARIABLE c
Init == \E l \in {"no", "name", "cf"}, r \in {"no", "all", "Cs_r", "Cs_w", "s_rho", "s_w", "hc"}, rs \in {"name", "cf", "mixed"},
           f \in {"no", "all", "siglay", "siglev"}, h \in {"no", "name", "rcf", "fcf"}, z \in {"no", "name", "rcf", "fcf"} :
          /\ c = [l |-> l, r |-> r, rstyle |-> rs, f |-> f, h |-> h, z |-> z]
          /\ (r = "no" => rs = "name")
          /\ (r # "all" => z \in {"no", "name"} \/ f = "all")
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Part(s, b) == SelectSeq(s, LAMBDA v : (Len(v.name) % 2 = 0) = b)
\* what the pattern means is what the search finds, wherever its variables are
Means == LET s == Files(c) IN
         /\ System(s, <<>>) = Meant(c) /\ System(<<>>, s) = Meant(c) /\ System(s, s) = Meant(c)
         /\ System(Part(s, TRUE), Part(s, FALSE)) = Meant(c) /\ System(Part(s, FALSE), Part(s, TRUE)) = Meant(c)
\* the free surface is optional, and what is in the data file hides what is in the grid file
Optional == Meant(c) = Meant([c EXCEPT !.z = "no"])
Hides == LET s == Files(c) IN \A t \in Types : \A k \in Terms(t) :
            /\ Find(s, s \o s, t, k) = Find(s, <<>>, t, k)
            /\ Cardinality(Find(s, <<>>, t, k)) <= 1
\* order of the variables does not matter
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Unordered == LET s == Files(c) IN \A t \in Types : \A k \in Terms(t) : Find(s, <<>>, t, k) = Find(Rev(s), <<>>, t, k)
Emit == PrintT(ToJson(c))
=============================================================================
