----------------------------- MODULE TimeFileGen -----------------------------
EXTENDS TimeFile, TLC, Json
VARIABLE c
Vals == {<<<<0, 1>>>>, <<<<0, 1>>, <<1, 1>>>>, <<<<0, 1>>, <<3, 2>>, <<5, 1>>>>, <<<<2, 1>>, <<1, 1>>>>, <<<<-1, 1>>, <<0, 1>>, <<1, 2>>>>}
Init == \E unit \in {"seconds", "minutes", "hours", "days"}, ref \in {0, 45000}, uoff \in {NONE, 0, -25200, 19800, -12600},
           vals \in Vals, tzarg \in {"file", "naive", "num"}, tz \in {0, -28800}, newtz \in {NONE, 3600},
           od \in {<<NONE, NONE>>, <<7200, NONE>>, <<NONE, 5400>>}, name \in {"", "PDT"} :
          /\ (tzarg # "num" => tz = 0)
          /\ (tzarg # "file" => uoff = NONE)     \* an explicit offset is only given for files that carry none
          /\ (unit = "seconds" => \A i \in 1..Len(vals) : vals[i][2] = 1)
          /\ (name # "" => od = <<NONE, NONE>> /\ ref = 0)
          /\ c = [unit |-> unit, ref |-> ref, uoff |-> uoff, vals |-> vals, tzarg |-> tzarg, tz |-> tz,
                  newtz |-> newtz, origin |-> od[1], disp |-> od[2], name |-> name]
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Inv == SameInstants(c) /\ LengthKept(c) /\ PrintT(ToJson(c))
=============================================================================
