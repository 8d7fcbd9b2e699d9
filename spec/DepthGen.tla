------------------------------- MODULE DepthGen -------------------------------
(* Depth systems and the depths to query, with the rules of DepthModel checked *)
(* on each.                                                                    *)
EXTENDS DepthModel, TLC, Json
CONSTANTS LevelSets, Hs, Zetas, Hcs, Which
VARIABLE c
LQuick == {<<0, 2, 5>>, <<5, 2, 0>>, <<1, 3>>, <<4, 1>>, <<0, 1, 2, 4, 6, 10>>, <<10, 6, 4, 2, 1, 0>>, <<3>>, <<-1, 0, 3>>}
LDeep == LQuick \cup {<<0, 1>>, <<9, 7, 6, 2>>, <<2, 5, 7, 8>>, <<0, 10, 20, 30, 50>>}
HQuick == {<<14, 0, 0>>, <<12, 2, -2>>, <<16, -2, 2>>}
HDeep == HQuick \cup {<<12, 0, 2>>, <<18, 0, -2>>, <<8, 2, 0>>}
ZQuick == {<<<<0, 0, 0>>>>, <<<<1, 0, 0>>, <<-1, 2, 0>>>>, <<<<0, 0, 2>>, <<2, -2, 0>>, <<3, 0, 0>>>>}
ZDeep == ZQuick \cup {<<<<-2, 0, 0>>, <<2, 0, 0>>>>, <<<<2, -2, 2>>>>}
HcQuick == {0, 2, 12}
HcDeep == {0, 2, 5, 12}
Both == {"L", "S"}

\* stretching curves in quarters: s from -1 to 0
Curves == {[s |-> <<-4, -2, 0>>, cs |-> <<-4, -1, 0>>], [s |-> <<0, -1, -3, -4>>, cs |-> <<0, -2, -3, -4>>],
           [s |-> <<-4, -3, -2, -1, 0>>, cs |-> <<-4, -3, -2, -1, 0>>], [s |-> <<-4, 0>>, cs |-> <<-4, 0>>]}
\* mid-layer curves in eighths
Mid(s) == [i \in 1..(Len(s) - 1) |-> Frac(s[i] + s[i + 1], 8)]
Qtr(s) == [i \in 1..Len(s) |-> Frac(s[i], 4)]
\* sigma levels per node, eighths
Sigmas == {[lev |-> <<<<0, 0, 0>>, <<-4, 0, 0>>, <<-8, 0, 0>>>>, lay |-> <<<<-2, 0, 0>>, <<-6, 0, 0>>>>],
           [lev |-> <<<<0, 0, 0>>, <<-2, -1, 0>>, <<-6, 0, 0>>, <<-8, 0, 0>>>>, lay |-> <<<<-1, 0, 0>>, <<-4, 0, -1>>, <<-7, 0, 0>>>>],
           [lev |-> <<<<-8, 0, 0>>, <<-6, 1, 0>>, <<0, 0, 0>>>>, lay |-> <<<<-7, 0, 0>>, <<-1, 0, 0>>>>]}
ZTimes(z) == IF Len(z) = 1 THEN <<>> ELSE [k \in 1..Len(z) |-> 3600 * (k - 1)]

InitL == \E lv \in LevelSets : c = [kind |-> "L", levels |-> [i \in 1..Len(lv) |-> R(lv[i])]]
InitR == \E h \in Hs, z \in Zetas, hc \in Hcs, vt \in {1, 2}, cv \in Curves :
    c = [kind |-> "roms", h |-> h, zeta |-> z, zt |-> ZTimes(z), hc |-> hc, vt |-> vt,
         s |-> Qtr(cv.s), cs |-> Qtr(cv.cs), sr |-> Mid(cv.s), csr |-> Mid(cv.cs)]
InitF == \E h \in Hs, z \in Zetas, sg \in Sigmas :
    c = [kind |-> "fvcom", h |-> h, zeta |-> z, zt |-> ZTimes(z), sig |-> sg.lev, sigr |-> sg.lay]
Init == ("L" \in Which /\ InitL) \/ ("S" \in Which /\ (InitR \/ InitF))
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c

Columns == IF c.kind = "L" THEN {<<2, 2, 0>>} ELSE {<<2, 2, 0>>, <<10, 4, 0>>}
Times == IF c.kind = "L" \/ c.zt = <<>> THEN {0} ELSE {1800, 7200}
\* depths: on, between, above and below the levels
ZsOf(prof) == {prof[i] : i \in 1..Len(prof)}
      \cup {RMul(<<1, 2>>, RAdd(prof[i], prof[i + 1])) : i \in 1..(Len(prof) - 1)}
      \cup {RAdd(prof[i], RMul(<<1, 4>>, RSub(prof[i + 1], prof[i]))) : i \in 1..(Len(prof) - 1)}
      \cup {RSub(Top(prof), R(1)), RAdd(Bottom(prof), R(1)), RAdd(Bottom(prof), R(20)), R(3), R(7)}
TestV(n) == TLCEval([i \in 1..n |-> R(((i * i * 5) % 7) - 3)])
Whole == \A p \in Columns, t \in Times :
    LET prof == Profile(c, t, p)  n == Len(prof) IN
    /\ Monotone(prof)
    /\ n > 1 =>
       /\ ExactAtLevels(prof, TestV(n))
       /\ \A z \in ZsOf(prof) : /\ NoOvershoot(prof, TestV(n), z)
                                /\ \A b \in {"mask", "extrapolate"} : Agree(prof, TestV(n), z, b, b)
                                /\ Holding(prof, z) = {} <=> (Above(prof, z) \/ Below(prof, z))
    \* a terrain-following column spans the water from the free surface to the bed, and layers lie between their levels
    /\ c.kind # "L" =>
       /\ Top(prof) = RZero
       /\ Bottom(prof) = RAdd(Bathy(c, p), Zeta(c, t, p))
       /\ LET lp == LayerProfile(c, t, p) IN \A i \in 1..Len(lp) : Between(lp[i], prof[i], prof[i + 1])
Inv == Whole /\ PrintT(ToJson([d |-> c]))
=============================================================================
