----------------------------- MODULE DatasetTrace -----------------------------
(* Judges histories of datasets built, changed, saved and loaded.  Every line  *)
(* is one operation and what all the datasets in use look like after it.       *)
EXTENDS DatasetModel, TraceLib
VARIABLES l, mem, file

Range(s) == {s[i] : i \in DOMAIN s}
Pairs(s) == {<<s[i][1], s[i][2]>> : i \in DOMAIN s}
AsVar(v) == [name |-> v.name, label |-> v.label, loc |-> v.loc, units |-> v.units, dt |-> v.dt, data |-> v.data,
             attrs |-> Pairs(v.attrs)]
AsVars(s) == {AsVar(s[i]) : i \in DOMAIN s}
AsDs(o) == [mesh |-> o.mesh, vars |-> AsVars(o.vars), attrs |-> Pairs(o.attrs)]
Op(e) == LET o == e.op IN
    CASE o.op = "new" -> [op |-> "new", d |-> o.d, mesh |-> o.mesh, attrs |-> Pairs(o.attrs)]
      [] o.op = "import" -> [op |-> "import", d |-> o.d, mesh |-> o.mesh, attrs |-> Pairs(o.attrs), vars |-> AsVars(o.vars)]
      [] o.op = "setvar" -> [op |-> "setvar", d |-> o.d, v |-> AsVar(o.v)]
      [] OTHER -> o

\* what differs between a dataset and what it should be
Differs(x, o) ==
    Clause(o.mesh = x.mesh, "grid")
    \cup Clause({v.name : v \in o.vars} = Names(x), "variables there")
    \cup Clause(o.attrs = x.attrs, "global attributes")
    \cup (IF {v.name : v \in o.vars} # Names(x) \/ Cardinality(o.vars) # Cardinality(x.vars) THEN {}
          ELSE UNION {LET a == VarNamed(x, n)  b == VarNamed(o, n) IN
                      Clause(a.data = b.data, "data") \cup Clause(a.dt = b.dt, "type of the data")
                      \cup Clause(a.loc = b.loc, "location") \cup Clause(a.units = b.units, "units")
                      \cup Clause(a.label = b.label, "name of a variable") \cup Clause(a.attrs = b.attrs, "attributes of a variable")
                      : n \in Names(x)})

Slots(o) == {o[i].d : i \in DOMAIN o}
At(o, d) == o[CHOOSE i \in DOMAIN o : o[i].d = d]
Bad(e) ==
    IF e.ev = "find" THEN Clause(e.out = "ok" /\ Range(e.got) = Found(mem[e.d], e.k, e.val), "variables found by an attribute")
    ELSE IF e.op.op = "load" /\ e.op.f \notin DOMAIN file THEN {}
    ELSE LET r == Apply(Op(e), mem, file) IN
         Clause(e.out = "ok", "outcome: " \o e.op.op)
         \cup Clause(e.out = "ok" => e.kept.got = e.kept.fmt, "format of the file")
         \cup Clause(e.out = "ok" => e.kept.refused = "err:ValueError", "a format that is none is refused")
         \cup (IF e.out # "ok" THEN {}
               ELSE UNION {{(IF d = e.op.d THEN "after " \o e.op.op \o ": " ELSE "another dataset after " \o e.op.op \o ": ") \o c
                            : c \in Differs(r.mem[d], AsDs(At(e.o, d)))} : d \in Slots(e.o) \cap DOMAIN r.mem})
         \cup Clause(e.out = "ok" => Slots(e.o) = DOMAIN r.mem, "datasets observed")

Init == l = 0 /\ mem = <<>> /\ file = <<>>
Step(e) == IF e.ev = "start" THEN mem' = <<>> /\ file' = <<>>
           ELSE IF e.ev = "op" /\ e.out = "ok"
           THEN LET r == Apply(Op(e), mem, file) IN mem' = TLCEval(r.mem) /\ file' = TLCEval(r.file)
           ELSE UNCHANGED <<mem, file>>
Next == /\ l < Len(Log)
        /\ LET e == Log[l + 1] IN Judge(l + 1, IF e.ev = "start" THEN {} ELSE Bad(e)) /\ Step(e)
        /\ l' = l + 1
        /\ (l' = Len(Log) => PrintT(<<"TRACE-DONE", l'>>))
Spec == Init /\ [][Next]_<<l, mem, file>>
=============================================================================
