------------------------------ MODULE DepthTrace ------------------------------
(* Judges recorded queries of real depth objects and of variables with a       *)
(* vertical.  State: the depth system, the fields of the components, and the   *)
(* settings of the variable; every change of the real object is one line.      *)
EXTENDS DepthModel, TraceLib
VARIABLES l, st

NextState(e) ==
    IF e.ev = "make" THEN e.st
    ELSE IF e.ev = "change" THEN
        CASE e.what = "data" -> [st EXCEPT !.fs = e.fs]
          [] e.what = "bc" -> [st EXCEPT !.sbc = e.sbc, !.bbc = e.bbc]
          [] e.what = "depth" -> [st EXCEPT !.d = e.d]
          [] e.what = "fill" -> [st EXCEPT !.fill = e.fill]
    ELSE st

\* a boundary condition given with the query wins over the one of the variable
Sbc(e) == IF e.sbc = "" THEN st.sbc ELSE e.sbc
Bbc(e) == IF e.bbc = "" THEN st.bbc ELSE e.bbc
Shown(S, um) == IF um THEN {IF x = MASKED THEN R(st.fill) ELSE x : x \in S} ELSE S
Outcome(e) == LET ts == st.fs[1].times IN IF ts = <<>> THEN "ok" ELSE LookupOutcome(ts, e.t, e.ex)

\* depth-major data is looked up in time only where some point is inside the column
NoneNeeded(e) == st.order = "depth_first" /\ \A i \in 1..Len(e.vals) : \A j \in 1..Len(e.vals[i]) : e.vals[i][j] \in Shown({MASKED}, e.um)

AtClauses(e) ==
    LET want == Outcome(e)  n == Len(e.pts)  c == Len(st.fs) IN
    IF want # "ok" THEN Clause(e.out = want \/ (e.out = "ok" /\ NoneNeeded(e)), "a query out of range is refused")
    ELSE Clause(e.out = "ok", "outcome of the query")
      \cup (IF e.out # "ok" THEN {}
            ELSE Clause(e.shape = <<n, c>>, "shape of the answer")
              \cup (IF e.shape # <<n, c>> THEN {}
                    ELSE Clause(\A i \in 1..n : \A j \in 1..c : InsideGrid(e.pts[i]) =>
                                 e.vals[i][j] \in Shown(InColumn(st.d, st.fs[j], st.loc, e.t, e.pts[i], Sbc(e), Bbc(e)), e.um), "value in the column")
                      \cup Clause(\A i \in 1..n : \A j \in 1..c : ~InsideGrid(e.pts[i]) =>
                                 e.vals[i][j] \in Shown(OffGrid(st.grid, st.d), e.um), "value off the grid")))
      \cup Clause(e.same, "the caller's points, the levels and the data are left alone")

\* zeta has its own time axis
ZOutcome(e) == IF st.d.kind \notin {"roms", "fvcom"} \/ st.d.zt = <<>> THEN "ok" ELSE LookupOutcome(st.d.zt, e.t, e.ex)
AlphaClauses(e) ==
    LET n == Len(e.pts) IN
    IF ZOutcome(e) # "ok" THEN Clause(e.out = ZOutcome(e), "a query out of range is refused")
    ELSE Clause(e.out = "ok" /\ Len(e.pos) = n, "outcome of the query")
      \cup (IF e.out # "ok" \/ Len(e.pos) # n THEN {}
            ELSE Clause(\A i \in 1..n : InsideGrid(e.pts[i]) \/ st.d.kind = "L" =>
                          e.pos[i] \in Positions(Profile(st.d, e.t, e.pts[i]), e.pts[i][3], e.sbc, e.bbc), "position in the column"))
      \cup Clause(e.same, "the caller's points, the levels and the data are left alone")
ProfClauses(e) ==
    LET n == Len(e.pts) IN
    IF ZOutcome(e) # "ok" THEN Clause(e.out = ZOutcome(e), "a query out of range is refused")
    ELSE Clause(e.out = "ok" /\ Len(e.prof) = n /\ Len(e.sc) = n, "outcome of the query")
      \cup (IF e.out # "ok" \/ Len(e.prof) # n \/ Len(e.sc) # n THEN {}
            ELSE LET P(i) == IF e.lay THEN LayerProfile(st.d, e.t, e.pts[i]) ELSE Profile(st.d, e.t, e.pts[i]) IN
                 Clause(\A i \in 1..n : InsideGrid(e.pts[i]) => e.prof[i] = P(i), "depths below the free surface")
                 \cup Clause(\A i \in 1..n : InsideGrid(e.pts[i]) =>
                        e.sc[i] = [k \in 1..Len(P(i)) |-> RSub(P(i)[k], Zeta(st.d, e.t, e.pts[i]))], "depths below the mean surface"))
InfoClauses(e) ==
    Clause(e.out = "ok" /\ e.nlev = NumLevels(st.d) /\ e.nlay = NumLayers(st.d), "number of levels and layers")
    \cup (IF st.d.kind = "surf" THEN Clause(e.out = "ok" /\ e.si = st.d.si, "surface index")
          ELSE LET prof == Profile(st.d, e.t, <<2, 2>>) IN
               Clause(e.out = "ok" /\ e.si = TopIndex(prof) - 1 /\ e.bi = BottomIndex(prof) - 1, "surface and bottom index"))

Bad(e) == CASE e.ev = "at" -> AtClauses(e)
            [] e.ev = "alphas" -> AlphaClauses(e)
            [] e.ev = "profile" -> ProfClauses(e)
            [] e.ev = "info" -> InfoClauses(e)
            [] e.ev \in {"make", "change"} -> Clause(e.out = "ok", "outcome of construction or change")
            [] OTHER -> {}

Init == l = 0 /\ st = [none |-> TRUE]
Next == /\ l < Len(Log)
        /\ Judge(l + 1, Bad(Log[l + 1]))
        /\ st' = NextState(Log[l + 1])
        /\ l' = l + 1
        /\ (l' = Len(Log) => PrintT(<<"TRACE-DONE", l'>>))
Spec == Init /\ [][Next]_<<l, st>>
=============================================================================
