-------------------------------- MODULE LandHist ------------------------------
(* Points located on a grid with land, with and without the masks, while the   *)
(* tree of cells is built anew and answers are remembered.                     *)
EXTENDS Masks, TLC, Json
CONSTANTS NQ, MaxOps
VARIABLES set, trees, memo, last, hist
vars == <<set, trees, memo, last, hist>>

None == [want |-> TRUE, got |-> TRUE]
Builds(h) == LET b == SelectSeq(h, LAMBDA o : o.op = "build") IN [i \in DOMAIN b |-> b[i].with]
Init == set = TRUE /\ trees = {} /\ memo = {} /\ last = None /\ hist = <<>>
\* an answer is of a tree with or without land; only those of the tree in force are remembered
Ask(q, u, m) ==
    LET w == IF u = "default" THEN set ELSE u = "with"
        hits == {x \in memo : x.q = q}
        hit == m /\ w = set /\ hits # {}
        got == IF hit THEN (CHOOSE x \in hits : TRUE).with ELSE w
    IN /\ trees' = IF hit THEN trees ELSE trees \cup {w}
       /\ memo' = IF m /\ w = set /\ ~hit THEN memo \cup {[q |-> q, with |-> got]} ELSE memo
       /\ last' = [want |-> InForce(Builds(hist), u), got |-> got]
       /\ hist' = Append(hist, [op |-> "ask", q |-> q, u |-> u, memo |-> m])
       /\ UNCHANGED set
Build(w) ==
    /\ set' = w /\ trees' = {w} /\ memo' = {} /\ last' = None
    /\ hist' = Append(hist, [op |-> "build", with |-> w])
Next == /\ Len(hist) < MaxOps
        /\ \/ \E q \in 1 .. NQ, u \in {"default", "with", "without"}, m \in BOOLEAN : Ask(q, u, m)
           \/ \E w \in BOOLEAN : Build(w)
Spec == Init /\ [][Next]_vars
\* what was asked and built before never shows, but for the last setting that was built
Transparent == last.got = last.want
\* everything remembered is of the tree in force
Fresh == \A x \in memo : x.with = set
View == <<set, trees, memo, last, IF hist = <<>> THEN <<>> ELSE hist[Len(hist)]>>
Emit == hist'[Len(hist')].op = "ask" => PrintT(ToJson(hist'))
=============================================================================
