------------------------------- MODULE LoadTrace ------------------------------
(* Judges variables read from files: the reading itself, what the variable says *)
(* about itself, and its answers.                                              *)
EXTENDS Load, TraceLib
VARIABLES l, st

Shown(S, um) == IF um THEN {IF x = MASKED THEN R(st.fill) ELSE x : x \in S} ELSE S
NComp == Len(st.fs)

\* name, units, ... : what is given wins over what the file says
Of(given, file) == IF given # "" THEN given ELSE file
UnitsOf(s) == LET u == [j \in 1..Len(s.fs) |-> Of(s.gunits, s.funits[j])] IN
              IF \A j \in 1..Len(u) : u[j] = u[1] THEN <<u[1]>> ELSE u
MakeClauses(e) ==
    LET s == e.st IN
    Clause(e.out = "ok", "outcome of reading")
    \cup (IF e.out # "ok" THEN {}
          ELSE Clause(s.gname # "" => e.o.name = s.gname, "name")
            \cup Clause(e.o.units = UnitsOf(s), "units")
            \cup Clause(\A j \in 1..Len(s.fs) : e.o.loc[j] = s.where, "location on the grid")
            \cup Clause(\A j \in 1..Len(s.fs) : e.o.var[j] = s.vars[j], "variable of the file")
            \cup Clause(\A j \in 1..Len(s.fs) : e.o.attrs[j] = s.attrs[j], "attributes of the variable")
            \cup Clause(TimesOf(s) # <<>> => e.o.times = TimesOf(s), "times")
            \cup Clause(s.given = <<>> /\ s.parts # <<>> => e.o.tz = (IF s.tz = NONE THEN 0 ELSE s.tz), "offset of the times")
            \cup Clause(s.d.kind = "none" => e.o.depth = "none", "no vertical"))

AtClauses(e) ==
    LET n == Len(e.pts) IN
    IF Refused(st, e.t, e.ex) THEN Clause(e.out = LookupOutcome(TimesOf(st), e.t, e.ex), "a time outside of the files is refused")
    ELSE Clause(e.out = "ok", "outcome of the query")
      \cup (IF e.out # "ok" THEN {}
            ELSE Clause(e.shape = <<n, NComp>>, "shape of the answer")
              \cup (IF e.shape # <<n, NComp>> THEN {}
                    ELSE Clause(\A i \in 1..n : \A j \in 1..NComp :
                                  e.vals[i][j] \in Shown(Answers(st, j, e.t, e.pts[i], st.sbc, st.bbc), e.um), "value at the point, depth and time")))
Bad(e) == CASE e.ev = "make" -> MakeClauses(e) [] e.ev = "at" -> AtClauses(e) [] OTHER -> {}

Init == l = 0 /\ st = [none |-> TRUE]
Next == /\ l < Len(Log)
        /\ Judge(l + 1, Bad(Log[l + 1]))
        /\ st' = (IF Log[l + 1].ev = "make" THEN Log[l + 1].st ELSE st)
        /\ l' = l + 1
        /\ (l' = Len(Log) => PrintT(<<"TRACE-DONE", l'>>))
Spec == Init /\ [][Next]_<<l, st>>
=============================================================================
