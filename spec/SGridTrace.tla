------------------------------- MODULE SGridTrace ------------------------------
(* Judges recorded calls on real staggered grids.                              *)
EXTENDS SGridModel, TraceLib
VARIABLE l
LocateClauses(e) ==
    Clause(e.out = "ok", "outcome")
    \cup (IF e.out # "ok" THEN {}
          ELSE Clause(e.shape = e.wantshape, "shape of the answer")
            \cup (IF e.shape # e.wantshape THEN {}
                  ELSE Clause(\A k \in 1..Len(e.pts) : LocateOk(e.g, e.pts[k], e.idx[k]), "cell of the point")))
EffPad(e) == IF e.pad # <<>> THEN e.pad ELSE PadOf(e.g, e.loc)
V(e, k) == IF e.unmask /\ e.vals[k] = R(e.fill) THEN {e.vals[k], MASKED} ELSE {e.vals[k]}
InterpClauses(e) ==
    Clause(e.out = "ok", "outcome")
    \cup (IF e.out # "ok" THEN {}
          ELSE Clause(e.shape = e.wantshape, "shape of the answer")
            \cup (IF e.shape # e.wantshape THEN {}
                  ELSE Clause(\A k \in 1..Len(e.pts) : Homes(e.g, e.pts[k]) # {} =>
                                 \E v \in V(e, k) : ValueOk(e.g, e.loc, e.data, e.dm, EffPad(e), e.pts[k], e.beh, v), "value on the grid")
                    \cup Clause(\A k \in 1..Len(e.pts) : Homes(e.g, e.pts[k]) = {} => MASKED \in V(e, k), "value off the grid")
                    \cup Clause(e.unmask => \A k \in 1..Len(e.pts) : e.vals[k] # MASKED, "unmasked answer")))
NearClauses(e) ==
    Clause(e.out = "ok", "outcome")
    \cup (IF e.out # "ok" THEN {}
          ELSE Clause(e.shape = e.wantshape, "shape of the answer")
            \cup (IF e.shape # e.wantshape THEN {} ELSE Clause(\A k \in 1..Len(e.pts) : NearestOk(e.xy, e.pts[k], e.idx[k]), "nearest location")))
(* compute_interpolant: rows of values, masks and weights (quarters) *)
RowOut(e, k) ==
    LET vs == e.vs[k]
        ms == e.ms[k]
        n == Len(vs)
        one(i) == IF ms[i] = 1 THEN (IF e.beh = "mirror" THEN -vs[3 - i] ELSE 0) ELSE vs[i]
        RECURSIVE Sum(_)
        Sum(i) == IF i = 0 THEN 0 ELSE Sum(i - 1) + e.ws[k][i] * one(i)
    IN IF e.beh = "mask" /\ (\E i \in 1..n : ms[i] = 1) THEN MASKED ELSE Frac(Sum(n), 16)
BlendClauses(e) ==
    IF e.beh = "mirror" /\ Len(e.vs[1]) > 2 THEN Clause(e.out = "err:ValueError", "mirror is refused for more than two values")
    ELSE Clause(e.out = "ok", "outcome")
         \cup (IF e.out # "ok" THEN {}
               ELSE Clause(Len(e.vals) = Len(e.vs), "shape of the answer")
                 \cup (IF Len(e.vals) # Len(e.vs) THEN {}
                       ELSE Clause(\A k \in 1..Len(e.vs) : (e.beh = "mirror" /\ e.ms[k] = <<1, 1>>) \/ e.vals[k] = RowOut(e, k), "value of the interpolant")))
Bad(e) ==
    (CASE e.ev = "interp" -> InterpClauses(e)
       [] e.ev = "locate" -> LocateClauses(e)
       [] e.ev = "nearest" -> NearClauses(e)
       [] e.ev = "nearval" -> Clause(e.out = "ok" /\ Len(e.vals) = Len(e.pts) /\ (\A k \in 1..Len(e.pts) :
                                     \E r \in 0..(Len(e.xy) - 1), c \in 0..(Len(e.xy[1]) - 1) :
                                        NearestOk(e.xy, e.pts[k], <<r, c>>) /\ e.vals[k] = (IF At(e.dm, r, c) = 1 THEN MASKED ELSE R(At(e.data, r, c)))), "value of the nearest location")
       [] e.ev = "blend" -> BlendClauses(e)
       [] e.ev = "pads" -> Clause(e.out = "ok" /\ e.node = PadOf(e.g, "node") /\ e.center = PadOf(e.g, "center")
                                  /\ e.edge1 = PadOf(e.g, "edge1") /\ e.edge2 = PadOf(e.g, "edge2"), "padding of a location")
       [] e.ev = "trim" -> Clause(e.out = "ok" /\ e.rows = [i \in 1..(e.n[1] - PadLen(e.pad[1])) |-> i - 1 + PadLo(e.pad[1])]
                                  /\ e.cols = [i \in 1..(e.n[2] - PadLen(e.pad[2])) |-> i - 1 + PadLo(e.pad[2])], "trimming of padded data")
       [] e.ev = "shift" -> Clause(e.out = "ok" /\ e.got = [k \in 1..Len(e.idx) |-> <<e.idx[k][1] + PadLo(e.pad[1]), e.idx[k][2] + PadLo(e.pad[2])>>], "index into padded data")
       [] e.ev = "infer" -> Clause(e.out = "ok" /\ e.loc = Location(e.g, e.shape2), "location of the data")
       [] OTHER -> {})
    \cup Clause(e.same, "the caller's arrays are left alone")
Init == l = 0
Next == /\ l < Len(Log)
        /\ Judge(l + 1, Bad(Log[l + 1]))
        /\ l' = l + 1
        /\ (l' = Len(Log) => PrintT(<<"TRACE-DONE", l'>>))
Spec == Init /\ [][Next]_l
=============================================================================
