------------------------------- MODULE DepthFile ------------------------------
(* Which depth system a file has, which of its variables are the terms of that *)
(* system, and how variables are found by name at all.                         *)
EXTENDS Integers, Sequences, FiniteSets

Types == {"L", "R", "F"}
Terms(t) == CASE t = "L" -> {"depth_levels"}
              [] t = "R" -> {"Cs_r", "Cs_w", "s_rho", "s_w", "hc", "bathymetry", "zeta"}
              [] t = "F" -> {"siglay", "siglev", "bathymetry", "zeta"}
Required(t) == Terms(t) \ {"zeta"}
\* the documented names of a term, best first
Names(t, k) == CASE k = "depth_levels" -> <<"depth", "depth_levels", "Depth">>
                 [] k = "bathymetry" -> <<"h">>
                 [] OTHER -> <<k>>
\* long or standard names of a term, best first
CfNames(t, k) ==
    CASE k = "depth_levels" -> <<"depth">>
      [] k = "Cs_r" -> <<"S-coordinate stretching curves at RHO-points">>
      [] k = "Cs_w" -> <<"S-coordinate stretching curves at W-points">>
      [] k = "s_rho" -> <<"S-coordinate at RHO-points">>
      [] k = "s_w" -> <<"S-coordinate at W-points">>
      [] k = "hc" -> <<"S-coordinate parameter, critical depth">>
      [] k \in {"siglay", "siglev"} -> <<"ocean_sigma/general_coordinate">>
      [] k = "bathymetry" -> (IF t = "R" THEN <<"bathymetry at RHO-points", "Final bathymetry at RHO-points">>
                              ELSE <<"sea_floor_depth_below_geoid">>)
      [] k = "zeta" -> (IF t = "R" THEN <<"free-surface">> ELSE <<"sea_surface_height_above_geoid">>)

\* the variables of a file that answer to the first name, or else to the first description, that any answers to
RECURSIVE First(_, _, _)
First(file, wants, kind) ==
    IF wants = <<>> THEN {}
    ELSE LET hit == {i \in DOMAIN file : IF kind = "name" THEN file[i].name = Head(wants) ELSE Head(wants) \in {file[i].long, file[i].std}}
         IN IF hit # {} THEN hit ELSE First(file, Tail(wants), kind)
FoundBy(file, names, cf) == LET a == First(file, names, "name") IN IF a # {} THEN a ELSE First(file, cf, "cf")
FindIn(file, t, k) == FoundBy(file, Names(t, k), CfNames(t, k))
\* a file of data and a file of the grid: the former first
Find(ds, dg, t, k) == LET a == FindIn(ds, t, k) IN IF a # {} THEN {ds[i] : i \in a} ELSE {dg[i] : i \in FindIn(dg, t, k)}
Complete(ds, dg, t) == \A k \in Required(t) : Find(ds, dg, t, k) # {}
System(ds, dg) == LET C == {t \in Types : Complete(ds, dg, t)}
                  IN IF C = {} THEN "surface" ELSE IF Cardinality(C) = 1 THEN CHOOSE t \in C : TRUE ELSE "err"

(* Patterns of files: what of each system a file has, and how it says so       *)
V(name, long, std) == [name |-> name, long |-> long, std |-> std]
Named(t, k) == V(Names(t, k)[1], "", "")
ByCf(t, k, s) == IF s THEN V("x_" \o k, "", CfNames(t, k)[1]) ELSE V("x_" \o k, CfNames(t, k)[1], "")
RTerms == <<"Cs_r", "Cs_w", "s_rho", "s_w", "hc">>
FTerms == <<"siglay", "siglev">>
Files(c) ==
    LET lv == CASE c.l = "no" -> <<>> [] c.l = "name" -> <<Named("L", "depth_levels")>> [] c.l = "cf" -> <<ByCf("L", "depth_levels", TRUE)>>
        r == IF c.r = "no" THEN <<>>
             ELSE [i \in DOMAIN RTerms |-> IF c.r = RTerms[i] THEN V("none_" \o RTerms[i], "", "")
                                           ELSE IF c.rstyle = "name" \/ (c.rstyle = "mixed" /\ i % 2 = 0) THEN Named("R", RTerms[i])
                                           ELSE ByCf("R", RTerms[i], FALSE)]
        f == IF c.f = "no" THEN <<>>
             ELSE [i \in DOMAIN FTerms |-> IF c.f = FTerms[i] THEN V("none_" \o FTerms[i], "", "") ELSE Named("F", FTerms[i])]
        h == CASE c.h = "no" -> <<>> [] c.h = "name" -> <<Named("R", "bathymetry")>>
               [] c.h = "rcf" -> <<ByCf("R", "bathymetry", FALSE)>> [] c.h = "fcf" -> <<ByCf("F", "bathymetry", TRUE)>>
        z == CASE c.z = "no" -> <<>> [] c.z = "name" -> <<Named("R", "zeta")>>
               [] c.z = "rcf" -> <<ByCf("R", "zeta", FALSE)>> [] c.z = "fcf" -> <<ByCf("F", "zeta", TRUE)>>
    IN lv \o r \o f \o h \o z
\* the system such a file has
Meant(c) ==
    LET C == (IF c.l # "no" THEN {"L"} ELSE {})
             \cup (IF c.r = "all" /\ c.h \in {"name", "rcf"} THEN {"R"} ELSE {})
             \cup (IF c.f = "all" /\ c.h \in {"name", "fcf"} THEN {"F"} ELSE {})
    IN IF C = {} THEN "surface" ELSE IF Cardinality(C) = 1 THEN CHOOSE t \in C : TRUE ELSE "err"
=============================================================================
