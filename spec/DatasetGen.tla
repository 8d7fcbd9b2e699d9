------------------------------ MODULE DatasetGen ------------------------------
EXTENDS DatasetModel, TLC, Json
CONSTANTS MaxOps, Slots, Files, VarNames
VARIABLES mem, file, hist
vars == <<mem, file, hist>>
N == Len(hist)
Var(nm) == [name |-> nm, label |-> "s:" \o nm, loc |-> "node", units |-> "m", dt |-> "f8", data |-> <<N>>, attrs |-> {}]
Do(op, brief) == LET r == Apply(op, mem, file) IN mem' = r.mem /\ file' = r.file /\ hist' = Append(hist, brief)
Init == mem = <<>> /\ file = <<>> /\ hist = <<>>
Next == /\ N < MaxOps
        /\ \E d \in Slots :
             \/ /\ d = 1 \/ 1 \in DOMAIN mem
                /\ Do([op |-> "new", d |-> d, mesh |-> N, attrs |-> {}], [op |-> "new", d |-> d])
             \/ /\ d \in DOMAIN mem
                /\ \/ \E nm \in VarNames : Do([op |-> "setvar", d |-> d, v |-> Var(nm)], [op |-> "setvar", d |-> d, name |-> nm])
                   \/ \E nm \in Names(mem[d]) : Do([op |-> "delvar", d |-> d, name |-> nm], [op |-> "delvar", d |-> d, name |-> nm])
                   \/ \E nm \in Names(mem[d]) : Do([op |-> "varattr", d |-> d, name |-> nm, k |-> "k", val |-> N],
                                                   [op |-> "varattr", d |-> d, name |-> nm])
                   \/ Do([op |-> "setattr", d |-> d, k |-> "k", val |-> N], [op |-> "setattr", d |-> d])
                   \/ \E f \in Files : Do([op |-> "save", d |-> d, f |-> f], [op |-> "save", d |-> d, f |-> f])
             \/ \E f \in DOMAIN file : Do([op |-> "load", d |-> d, f |-> f], [op |-> "load", d |-> d, f |-> f])
Spec == Init /\ [][Next]_vars
\* a file changes only when it is written; a dataset only through itself
FilesStay == [][hist'[N + 1].op # "save" => file' = file]_vars
SlotsStay == [][\A d \in DOMAIN mem : hist'[N + 1].d # d => mem'[d] = mem[d]]_vars
SaveKeeps == [][hist'[N + 1].op = "save" => mem' = mem]_vars
\* what is read is what was last written there
ReadsBack == [][hist'[N + 1].op = "load" => mem'[hist'[N + 1].d] = Reread(file[hist'[N + 1].f])]_vars
NoStrays == \A d \in DOMAIN mem : \A v, w \in mem[d].vars : v.name = w.name => v = w
Emit == hist'[Len(hist')].op = "load" /\ (\E i \in 1..Len(hist') : hist'[i].op = "setvar") => PrintT(ToJson(hist'))
=============================================================================
