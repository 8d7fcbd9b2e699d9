-------------------------------- MODULE LoadGen -------------------------------
(* Every kind of grid and place on it, split of the times over files, vertical *)
(* and way of naming or opening the files.                                     *)
EXTENDS Load, Json
VARIABLE c

Axis == <<0, 3600, 10800>>
Cuts(n) == CASE n = 0 -> {<<>>} [] n = 1 -> {<<1>>} [] n = 2 -> {<<2>>, <<1, 1>>} [] n = 3 -> {<<3>>, <<1, 2>>, <<2, 1>>, <<1, 1, 1>>}
One == {"path", "Path", "list1", "ds", "dsgrid", "two", "twofn", "wrong", "gridobj", "gridds", "all", "allPath", "allds", "init"}
Many == {"list", "listtwo", "mf", "listgrid", "all", "allmf"}
Init == \E g \in {"R", "S", "U"}, loc \in {"node", "center"}, n \in 0..3, dk \in {"none", "L", "surf", "roms", "fvcom"}, lay \in BOOLEAN :
        \E cut \in Cuts(n) : \E how \in (IF Len(cut) > 1 THEN Many ELSE One), topo \in {"usual", "other", "decoy"} :
          /\ c = [grid |-> g, loc |-> loc, cut |-> cut, dk |-> dk, lay |-> lay, how |-> how, topo |-> topo]
          \* names of the grid given by the caller, the usual ones absent or used for something else
          /\ (topo # "usual" => how \in {"path", "ds", "two", "wrong", "list", "listtwo"})
          /\ (loc = "center" => g # "R")
          /\ (dk = "roms" => g = "S") /\ (dk = "fvcom" => g = "U")
          /\ (lay => dk \in {"L", "roms", "fvcom"})
          /\ (dk \in {"roms", "fvcom"} => n > 0)
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c

(* meta-properties, on one field *)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
N == Sum(c.cut)
A == SubSeq(Axis, 1, N)
Hows == {<<<<0, "hours">>, <<3600, "minutes">>, <<-86400, "seconds">>>>, <<<<86400, "days">>, <<0, "days">>, <<7200, "hours">>>>}
Files(h) == CutUp(A, 1, c.cut, h)
\* where a file stops and another begins, and since when it counts, does not matter
Seamless == \A h \in Hows : AxisOf(Files(h)) = A
Lv == <<R(0), R(2), R(7)>>
Dep == CASE c.dk = "none" -> [kind |-> "none"]
         [] c.dk = "L" -> [kind |-> "L", levels |-> Lv]
         [] c.dk = "surf" -> [kind |-> "surf", si |-> -1]
         [] c.dk = "roms" -> [kind |-> "roms", s |-> <<R(0), <<-1, 2>>, R(-1)>>, cs |-> <<R(0), <<-1, 4>>, R(-1)>>, sr |-> <<<<-1, 4>>, <<-3, 4>>>>,
                              csr |-> <<<<-1, 8>>, <<-5, 8>>>>, hc |-> 4, vt |-> 2, h |-> <<12, 2, 0>>, zt |-> <<>>, zeta |-> [k \in 1..N |-> <<k, 0, 0>>]]
         [] c.dk = "fvcom" -> [kind |-> "fvcom", sig |-> <<<<0, 0, 0>>, <<-4, 0, 0>>, <<-8, 0, 0>>>>, sigr |-> <<<<-2, 0, 0>>, <<-6, 0, 0>>>>,
                               h |-> <<12, 2, 0>>, zt |-> <<>>, zeta |-> [k \in 1..N |-> <<k, 0, 0>>]]
L == IF c.dk = "none" THEN 1 ELSE IF c.lay THEN 2 ELSE 3
V == [k \in 1..(IF N = 0 THEN 1 ELSE N) |-> [j \in 1..L |-> <<k * k + 5 * j * j, k, 2 * j>>]]
S(h) == [grid |-> c.grid, loc |-> c.loc, d |-> Dep, parts |-> Files(h), given |-> <<>>, origin |-> NONE, disp |-> NONE, fs |-> <<[v |-> V]>>]
H1 == CHOOSE h \in Hows : TRUE
Ask(t, p) == Answers(S(H1), 1, t, p, "extrapolate", "extrapolate")
Ts == {0, 1800, 3600, 7200, 10800}
Fld(k, j, p) == IF c.loc = "center" THEN Cell(V[k][j], p) ELSE Lin(V[k][j], p)
\* what is recorded is answered
Recorded == \A k \in 1..N : \A px \in {2, 5} :
    CASE c.dk = "none" -> Ask(A[k], <<px, 2, R(0)>>) = {Fld(k, 1, <<px, 2>>)}
      [] c.dk = "surf" -> Ask(A[k], <<px, 2, R(3)>>) = {Fld(k, L, <<px, 2>>)}
      [] OTHER -> LET prof == Profile(VerticalOf(S(H1)), A[k], <<px, 2>>) IN
                  \A j \in 1..L : Fld(k, j, <<px, 2>>) \in Ask(A[k], <<px, 2, prof[j]>>)
\* data without time is the same at any time, data without depth at any depth
Steady == N = 0 => \A t \in Ts : Ask(t, <<2, 2, R(1)>>) = Ask(0, <<2, 2, R(1)>>)
Flat == c.dk \in {"none", "surf"} => \A z \in {-1, 3, 50} : Ask(1800, <<2, 2, R(z)>>) = Ask(1800, <<2, 2, R(0)>>)
\* other files, same answers
Same == \A h \in Hows : \A t \in Ts : Answers(S(h), 1, t, <<2, 2, R(1)>>, "mask", "mask") = Answers(S(H1), 1, t, <<2, 2, R(1)>>, "mask", "mask")
\* a time outside all files is refused
Guarded == Refused(S(H1), 10801, FALSE) = (N > 1) /\ ~Refused(S(H1), 10801, TRUE) /\ Refused(S(H1), -1, FALSE) = (N > 1)
Emit == PrintT(ToJson(c))
=============================================================================
