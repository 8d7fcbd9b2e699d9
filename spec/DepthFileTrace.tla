---------------------------- MODULE DepthFileTrace ----------------------------
(* Judges the depth systems made of files, and the variables found by name.    *)
EXTENDS DepthFile, TraceLib
VARIABLE l

Class == [L |-> "L_Depth", R |-> "ROMS_Depth", F |-> "FVCOM_Depth", surface |-> "DepthBase"]
Over(e, k) == {i \in DOMAIN e.terms : e.terms[i].term = k}
Given(e, k) == {i \in DOMAIN e.given : e.given[i].term = k}
\* the variables a term may come from: given as an object, given by name, given as values, or searched
Sources(e, t, k) ==
    IF Given(e, k) # {} THEN {LET x == e.given[i] IN [name |-> "", long |-> "", std |-> "", shape |-> x.shape, vals |-> x.vals, times |-> x.times] : i \in Given(e, k)}
    ELSE IF Over(e, k) = {} THEN Find(e.ds, e.dg, t, k)
    ELSE LET x == e.terms[CHOOSE i \in Over(e, k) : TRUE]
             D == {i \in DOMAIN e.ds : e.ds[i].name = x.label}
             G == {i \in DOMAIN e.dg : e.dg[i].name = x.label}
         IN IF x.how = "array" THEN {[name |-> "", long |-> "", std |-> "", shape |-> x.shape, vals |-> x.vals, times |-> <<>>]}
            ELSE IF D # {} THEN {e.ds[i] : i \in D} ELSE {e.dg[i] : i \in G}
MinAt(s) == CHOOSE i \in DOMAIN s : \A j \in DOMAIN s : s[i] < s[j] \/ (s[i] = s[j] /\ i <= j)
MaxAt(s) == CHOOSE i \in DOMAIN s : \A j \in DOMAIN s : s[i] > s[j] \/ (s[i] = s[j] /\ i <= j)
TopZero(s) == [s EXCEPT ![MinAt(s)] = 0]
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
\* four times the values at the nodes of one slab of size k starting after offset o
AtNodes(v, o, sh, n) ==
    IF sh = n THEN [p \in 1 .. Prod(n) |-> 4 * v[o + p]]
    ELSE LET w == n[2]  c == sh[2] IN
         [p \in 1 .. Prod(n) |-> LET j == (p - 1) \div w  i == (p - 1) % w  a == o + j * c + i + 1
                                 IN v[a] + v[a + 1] + v[a + c] + v[a + c + 1]]
RECURSIVE AllTimes(_, _, _, _, _)
AllTimes(v, sh, n, k, nt) == IF k > nt THEN <<>> ELSE AtNodes(v, (k - 1) * Prod(sh), sh, n) \o AllTimes(v, sh, n, k + 1, nt)
Column(v) == [i \in 1 .. v.shape[1] |-> v.vals[(i - 1) * v.shape[2] + 1]]

Order(e, t, o) ==
    CASE t = "L" -> \E v \in Sources(e, t, "depth_levels") :
                       o.surf = MinAt(v.vals) - 1 /\ o.bot = MaxAt(v.vals) - 1 /\ o.nlev = Len(v.vals) /\ o.nlay = Len(v.vals) - 1
      [] t = "R" -> \E v \in Sources(e, t, "s_w"), r \in Sources(e, t, "s_rho") :
                       o.surf = MaxAt(v.vals) - 1 /\ o.bot = MinAt(v.vals) - 1 /\ o.nlev = Len(v.vals) /\ o.nlay = Len(r.vals)
      [] t = "F" -> \E v \in Sources(e, t, "siglev"), r \in Sources(e, t, "siglay") :
                       LET c == Column(v) IN o.surf = MaxAt(c) - 1 /\ o.bot = MinAt(c) - 1 /\ o.nlev = Len(c) /\ o.nlay = r.shape[1]
      [] t = "surface" -> o.surf = e.si /\ o.nlev = 1 /\ o.nlay = 0

Depth(e, t, o) ==
    Clause(o.cls = Class[t], "depth system")
    \cup (IF o.cls # Class[t] THEN {}
          ELSE Clause(Order(e, t, o), "surface, bottom, levels and layers")
               \cup (IF t = "surface" THEN {}
                     ELSE IF t = "L" THEN Clause(\E v \in Sources(e, t, "depth_levels") : o.terms.depth_levels = TopZero(v.vals), "levels of depth")
                     ELSE Clause(\A k \in Required(t) \ {"bathymetry"} : \E v \in Sources(e, t, k) : o.terms[k] = v.vals, "terms of the depth system")
                          \cup Clause(\E v \in Sources(e, t, "bathymetry") : o.bathy = AtNodes(v.vals, 0, v.shape, e.n), "bathymetry at the nodes")
                          \cup (LET Z == Sources(e, t, "zeta") IN
                                IF Z = {} THEN Clause(o.zeta # <<>> /\ \A i \in DOMAIN o.zeta : o.zeta[i] = 0, "no free surface: constant zero")
                                ELSE Clause(\E v \in Z : /\ o.zeta = AllTimes(v.vals, Tail(v.shape), e.n, 1, v.shape[1])
                                                         /\ o.times = (IF e.timearg # <<>> THEN e.timearg ELSE v.times), "free surface at the nodes and its times"))
                          \cup Clause(o.same, "grid of the bathymetry")))
DepthEv(e) ==
    LET t == IF e.via = "class" THEN e.t ELSE System(e.ds, e.dg) IN
    IF t = "err" THEN Clause(e.out = "err:ValueError", "an ambiguous file is refused")
    ELSE Clause(e.out = "ok", "outcome of making a depth system")
         \cup (IF e.out = "ok" THEN Depth(e, t, e.o) ELSE {})

NamesEv(e) ==
    LET F(i) == FoundBy(e.file, e.comps[i].names, e.comps[i].cf)
        N == DOMAIN e.comps
    IN IF \A i \in N : F(i) = {} THEN Clause(e.out = "err:ValueError", "no variable of the wanted names: ValueError")
       ELSE Clause(e.out = "ok", "outcome of finding variables by name")
            \cup (IF e.out # "ok" THEN {}
                  ELSE Clause(\A i \in N : \E j \in F(i) : e.found[i] = e.file[j].name, "the variable found")
                       \cup Clause(\A i \in N : \E j \in F(i) : e.vals[i] = e.file[j].vals, "its values")
                       \cup Clause(e.times = <<0, 1>>, "its times") \cup Clause(e.gridok, "its grid"))
Bad(e) == CASE e.ev = "depth" -> DepthEv(e) [] e.ev = "names" -> NamesEv(e)
Init == l = 0
Next == /\ l < Len(Log)
        /\ Judge(l + 1, Bad(Log[l + 1]))
        /\ l' = l + 1
        /\ (l' = Len(Log) => PrintT(<<"TRACE-DONE", l'>>))
Spec == Init /\ [][Next]_l
=============================================================================
