--------------------------------- MODULE Load ---------------------------------
(* Variables read from files.  A file, or several that follow each other in    *)
(* time, record fields at times (numbers since a reference time of the file's  *)
(* own), on levels or layers and on the points or cells of a grid; reading     *)
(* them gives one variable that answers as if all had been in one place.       *)
EXTENDS TimeFile, DepthModel

\* a part: the times of one file, [ref, unit, vals]
RECURSIVE AxisOf(_)
AxisOf(parts) == IF parts = <<>> THEN <<>> ELSE FileData(Head(parts)) \o AxisOf(Tail(parts))
\* the times of the variable: the caller's if given, else the files', shifted as asked
TimesOf(s) == IF s.given # <<>> THEN s.given
              ELSE IF s.parts = <<>> THEN <<>>
              ELSE BuildData(AxisOf(s.parts), 0, NONE, s.origin, s.disp)
\* the free surface moves with the times of the data
VerticalOf(s) == IF s.d.kind \in {"roms", "fvcom"} THEN [s.d EXCEPT !.zt = IF Len(s.d.zeta) = 1 THEN <<>> ELSE TimesOf(s)] ELSE s.d
FieldOf(s, j) == [times |-> TimesOf(s), v |-> s.fs[j].v, holes |-> <<>>]
\* set of values component j may have at point p and time t
Answers(s, j, t, p, sbc, bbc) ==
    IF s.d.kind = "none" THEN {ColumnAt(FieldOf(s, j), s.loc, t, p)[1]}
    ELSE InColumn(VerticalOf(s), FieldOf(s, j), s.loc, t, p, sbc, bbc)
Refused(s, t, ex) == LET ts == TimesOf(s) IN ts # <<>> /\ LookupOutcome(ts, t, ex) # "ok"

(* the same times in other files *)
Unit(u) == UnitSecs(u)
Part(axis, a, b, ref, u) == [unit |-> u, ref |-> ref, vals |-> [i \in 1..(b - a + 1) |-> Frac(axis[a + i - 1] - ref, Unit(u))]]
\* cut: numbers of times per file
RECURSIVE CutUp(_, _, _, _)
CutUp(axis, a, cut, how) ==
    IF cut = <<>> THEN <<>>
    ELSE <<Part(axis, a, a + Head(cut) - 1, how[1][1], how[1][2])>> \o CutUp(axis, a + Head(cut), Tail(cut), Tail(how))
=============================================================================
