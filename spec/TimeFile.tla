------------------------------- MODULE TimeFile -------------------------------
(* Reading a time axis from a netCDF file: CF units string, offset, selection *)
(* of the time variable.  A case is a record                                  *)
(*   unit   "seconds" | "minutes" | "hours" | "days"                          *)
(*   ref    reference time (seconds from the base date, as written)           *)
(*   uoff   offset written in the units (seconds) or NONE                     *)
(*   vals   stored numbers, as pairs numerator/denominator                    *)
(*   tzarg  "file" | "naive" | "num",  tz the number given                    *)
(*   newtz, origin, disp, name  further arguments                             *)
EXTENDS TimeModel, Rat

UnitSecs(u) == CASE u = "seconds" -> 1 [] u = "minutes" -> 60 [] u = "hours" -> 3600 [] u = "days" -> 86400

\* clock readings in the offset the axis is labelled with
FileData(c) == [i \in 1..Len(c.vals) |-> c.ref + (c.vals[i][1] * UnitSecs(c.unit)) \div c.vals[i][2]]

FileTz(c) == IF c.tzarg = "naive" THEN NONE
             ELSE IF c.tzarg = "num" THEN c.tz
             ELSE IF c.uoff = NONE THEN 0 ELSE c.uoff

FileOutcomes(c) == BuildOutcomes(FileData(c), FileTz(c), c.newtz)
FileObject(c) == Build(FileData(c), FileTz(c), c.newtz, c.origin, c.disp)

(* ---- the name of the offset ---- *)
Digit(n) == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>[n + 1]
Two(n) == Digit(n \div 10) \o Digit(n % 10)
IsoOffset(s) == (IF s < 0 THEN "-" ELSE "+") \o Two(Abs(s) \div 3600) \o ":" \o Two((Abs(s) % 3600) \div 60)
FileName(c) == IF c.name # "" THEN c.name
               ELSE IF c.tzarg = "naive" THEN "No Timezone Specified"
               ELSE IF c.tzarg = "num" THEN IsoOffset(c.tz)
               ELSE IF c.uoff = NONE \/ c.uoff = 0 THEN "UTC" ELSE IsoOffset(c.uoff)

(* ---- which variable holds the times of a data variable ---- *)
\* dims: names of the dimensions of the data variable; attr: its "time" attribute ("" if absent)
\* alldims: dimensions of the file.  Result "" = no time dimension: constant in time
TimeVarOf(dims, attr, alldims, hastime) ==
    IF attr # "" /\ attr \in alldims THEN attr
    ELSE IF hastime THEN dims[1] ELSE ""

(* meta-properties *)
\* reading with an offset in the units and re-expressing in UTC gives the file's UTC instants
SameInstants(c) == (c.uoff # NONE /\ c.tzarg = "file") =>
    Shift(WithTz(Obj(FileData(c), FileTz(c), NONE), 0).data, 0) = Shift(FileData(c), -c.uoff)
LengthKept(c) == Len(FileObject(c).data) = Len(c.vals)
=============================================================================
