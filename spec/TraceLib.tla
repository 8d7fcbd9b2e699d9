------------------------------- MODULE TraceLib -------------------------------
(* Shared machinery of the trace-validation modules: the recorded trace of     *)
(* the implementation is one JSON object per line; the verdict is total (every *)
(* line is judged, mismatches are printed and counted, never a TLC error).     *)
EXTENDS Integers, Sequences, TLC, IOUtils, Json, FiniteSets

Log == ndJsonDeserialize(IOEnv.TRACE_FILE)

\* Report the clauses of line l that are violated: bad is a set of names.
\* Always TRUE; prints nothing when the set is empty.
Judge(l, bad) == IF bad = {} THEN TRUE ELSE PrintT(ToJson(<<"MISMATCH", l, bad>>))

Clause(ok, name) == IF ok THEN {} ELSE {name}
=============================================================================
