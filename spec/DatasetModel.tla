----------------------------- MODULE DatasetModel -----------------------------
(* Datasets in memory and in files.  A dataset is a record                     *)
(*   mesh   its grid                                                           *)
(*   vars   set of variables [name, label, loc, units, dt, data, attrs]        *)
(*   attrs  set of pairs: the global attributes                                *)
(* State: mem (slot -> dataset) for the slots in use, file (name -> dataset)   *)
(* for the files written.                                                      *)
EXTENDS Integers, Sequences, FiniteSets

Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
SetAttr(attrs, k, v) == {p \in attrs : p[1] # k} \cup {<<k, v>>}
Others(ds, name) == {v \in ds.vars : v.name # name}
VarNamed(ds, name) == CHOOSE v \in ds.vars : v.name = name
Names(ds) == {v.name : v \in ds.vars}

\* a variable read from a file goes by its long name, if it has one
LongName(v) == IF \E p \in v.attrs : p[1] = "long_name" THEN (CHOOSE p \in v.attrs : p[1] = "long_name")[2] ELSE "s:" \o v.name
Reread(ds) == [ds EXCEPT !.vars = {[v EXCEPT !.label = LongName(v)] : v \in ds.vars}]

Apply(op, mem, file) ==
    CASE op.op = "new"     -> [mem |-> Put(mem, op.d, [mesh |-> op.mesh, vars |-> {}, attrs |-> op.attrs]), file |-> file]
      [] op.op = "import"  -> [mem |-> Put(mem, op.d, Reread([mesh |-> op.mesh, vars |-> op.vars, attrs |-> op.attrs])), file |-> file]
      [] op.op = "setvar"  -> [mem |-> [mem EXCEPT ![op.d].vars = Others(mem[op.d], op.v.name) \cup {op.v}], file |-> file]
      [] op.op = "delvar"  -> [mem |-> [mem EXCEPT ![op.d].vars = Others(mem[op.d], op.name)], file |-> file]
      [] op.op = "setattr" -> [mem |-> [mem EXCEPT ![op.d].attrs = SetAttr(@, op.k, op.val)], file |-> file]
      [] op.op = "varattr" -> [mem |-> [mem EXCEPT ![op.d].vars = Others(mem[op.d], op.name) \cup
                                  {[VarNamed(mem[op.d], op.name) EXCEPT !.attrs = SetAttr(@, op.k, op.val)]}], file |-> file]
      [] op.op = "units"   -> [mem |-> [mem EXCEPT ![op.d].vars = Others(mem[op.d], op.name) \cup
                                  {[VarNamed(mem[op.d], op.name) EXCEPT !.units = op.val]}], file |-> file]
      [] op.op = "save"    -> [mem |-> mem, file |-> Put(file, op.f, mem[op.d])]
      [] op.op = "load"    -> [mem |-> Put(mem, op.d, Reread(file[op.f])), file |-> file]

\* variables that have an attribute of that value
Found(ds, k, val) == {v.name : v \in {w \in ds.vars : <<k, val>> \in w.attrs}}
=============================================================================
