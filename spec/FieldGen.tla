------------------------------- MODULE FieldGen -------------------------------
(* All combinations of time axis, query time and options for the temporal     *)
(* interpolation of a variable.                                               *)
EXTENDS FieldModel, TLC, Json
VARIABLE c
Axes == {<<>>, <<100>>, <<0, 3600>>, <<0, 100, 1000>>, <<-50, 0, 1, 400>>, <<0, 600, 1200, 1800, 5000>>}
Queries(x) == IF x = <<>> THEN {0} ELSE
              {x[1] - 50, x[Len(x)] + 50} \cup {x[i] : i \in 1..Len(x)}
              \cup {x[i] + 1 : i \in 1..Len(x)} \cup {x[i] - 1 : i \in 1..Len(x)}
              \cup {(x[i] + x[i + 1]) \div 2 : i \in 1..(Len(x) - 1)}
Init == \E ax \in Axes, ex \in BOOLEAN, um \in BOOLEAN, g \in {"R", "S", "U", "Sc", "Uf"} : \E t \in Queries(ax) :
          c = [times |-> ax, t |-> t, ex |-> ex, um |-> um, grid |-> g]
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
F == [grid |-> "R", gx |-> 0, times |-> c.times, A |-> <<3, -5, 8, 2, 10>>, B |-> <<1, 0, -2, 4, 0>>, C |-> <<0, 3, 1, -1, 2>>, fill |-> 0, gaps |-> <<>>]
G == [F EXCEPT !.gaps = <<2, 4>>]
Inv == /\ ExactAtTimes(F, <<5, 3>>)
       /\ NoOvershoot(F, <<5, 3>>, {c.t})
       /\ ExactAtTimes(G, <<5, 3>>) /\ NoOvershoot(G, <<5, 3>>, {c.t})
       /\ (c.times # <<>> => GapReach(G, <<5, 3>>, {c.t}))
       /\ PrintT(ToJson(c))
=============================================================================
