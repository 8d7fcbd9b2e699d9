------------------------------ MODULE VerdatOrder ------------------------------
(* Putting boundary segments in order: take one, extend it at either end by    *)
(* any segment that fits, until it closes or nothing fits.  Whatever segments  *)
(* are picked, the loops and lines that come out are those of the segments.    *)
EXTENDS VerdatModel, TLC, Json
CONSTANTS N, MaxSegs
VARIABLES E0, rest, bound, loops, lines
vars == <<E0, rest, bound, loops, lines>>
Pairs == {e \in SUBSET (0..(N - 1)) : Cardinality(e) = 2}
Init == /\ E0 \in {E \in SUBSET Pairs : Cardinality(E) <= MaxSegs /\ \A v \in NodesOf(E) : Degree(E, v) <= 2}
        /\ rest = E0 /\ bound = <<>> /\ loops = <<>> /\ lines = <<>>
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Take == /\ bound = <<>> /\ rest # {}
        /\ \E e \in rest : LET a == Least(e)  b == CHOOSE x \in e : x # a
                           IN bound' = <<a, b>> /\ rest' = rest \ {e}
        /\ UNCHANGED <<E0, loops, lines>>
Fits(e) == bound # <<>> /\ (bound[Len(bound)] \in e \/ bound[1] \in e)
Extend == \E e \in rest :
        /\ Fits(e)
        /\ rest' = rest \ {e}
        /\ LET atend == bound[Len(bound)] \in e
               x == IF atend THEN CHOOSE v \in e : v # bound[Len(bound)] ELSE CHOOSE v \in e : v # bound[1]
               b == IF atend THEN Append(bound, x) ELSE <<x>> \o bound
           IN IF b[1] = b[Len(b)]
              THEN loops' = Append(loops, SubSeq(b, 1, Len(b) - 1)) /\ bound' = <<>>
              ELSE bound' = b /\ UNCHANGED loops
        /\ UNCHANGED <<E0, lines>>
GiveUp == /\ bound # <<>> /\ ~\E e \in rest : Fits(e)
          /\ lines' = Append(lines, bound) /\ bound' = <<>>
          /\ UNCHANGED <<E0, rest, loops>>
Next == Take \/ Extend \/ GiveUp
Spec == Init /\ [][Next]_vars
Done == rest = {} /\ bound = <<>>
Right == Done => LoopsOk(E0, loops) /\ LinesOk(E0, lines)
\* nothing is lost on the way
Kept == rest \cup UNION {LoopEdges(loops[i]) : i \in DOMAIN loops} \cup UNION {LineEdges(lines[i]) : i \in DOMAIN lines}
        \cup (IF bound = <<>> THEN {} ELSE LineEdges(bound)) = E0
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE x \in S : TRUE
                                         a == Least(e)
                                     IN <<<<a, CHOOSE x \in e : x # a>>>> \o AsSeq(S \ {e})
Emit == (rest = E0 /\ bound = <<>> /\ loops = <<>> /\ lines = <<>> /\ E0 # {}) => PrintT(ToJson([n |-> N, segs |-> AsSeq(E0)]))
View == vars
=============================================================================
