------------------------------ MODULE FieldModel ------------------------------
(* The meaning of a gridded variable in space and time.                        *)
(*                                                                             *)
(* Test fields are linear in x and y on the nodes (every node interpolation of *)
(* the library reproduces such a field exactly) and change from time to time:  *)
(*   value(k, x, y) = A[k] + B[k]*x + C[k]*y,  k = index of a time of the axis *)
(* Points are given in quarters: px = 4x, py = 4y.  The grid covers            *)
(* gx/4 < x < gx/4 + 3, 0 < y < 2 where gx (quarters) is how far the grid is   *)
(* moved; the data belong to the nodes and move along.                         *)
(* f.gaps: the slices whose data are missing (not a number).                   *)
EXTENDS TimeModel, Rat

InsideGrid(f, p) == f.gx < p[1] /\ p[1] < f.gx + 12 /\ 0 < p[2] /\ p[2] < 8

\* value of the field at time slice k
SliceAt(f, k, p) == IF \E j \in 1..Len(f.gaps) : f.gaps[j] = k THEN NAN ELSE
    RAdd(R(f.A[k]), RAdd(Frac(f.B[k] * (p[1] - f.gx), 4), Frac(f.C[k] * p[2], 4)))

\* value at time t: linear between the bracketing times, the end slices outside the axis
TimeAt(f, t, p) ==
    IF f.times = <<>> THEN SliceAt(f, 1, p)          \* no time axis: constant in time
    ELSE LET n == Len(f.times) IN
         IF t <= f.times[1] THEN SliceAt(f, 1, p)
         ELSE IF t >= f.times[n] THEN SliceAt(f, n, p)
         ELSE LET i == IndexOf(f.times, t)  a == Alpha(f.times, t)
                  u == SliceAt(f, i, p)  v == SliceAt(f, i + 1, p)
              IN \* exactly at a time the other slice has no part in the value
                 IF a[1] = 0 THEN u ELSE IF a[1] = a[2] THEN v
                 ELSE IF u = NAN \/ v = NAN THEN NAN ELSE RLerp(u, v, Frac(a[1], a[2]))

\* what a point off the grid gets
OffGridValue(f, unmask) == IF f.grid = "S" THEN (IF unmask THEN R(f.fill) ELSE MASKED) ELSE RZero

AtOutcome(f, t, ex) == IF f.times = <<>> THEN "ok" ELSE LookupOutcome(f.times, t, ex)
AtValue(f, t, p, unmask) == IF InsideGrid(f, p) THEN TimeAt(f, t, p) ELSE OffGridValue(f, unmask)

(* meta-properties *)
Between(v, a, b) == (RLe(a, v) /\ RLe(v, b)) \/ (RLe(b, v) /\ RLe(v, a))
\* at one of its times the variable has exactly that slice
ExactAtTimes(f, p) == \A k \in 1..Len(f.times) : TimeAt(f, f.times[k], p) = SliceAt(f, k, p)
\* between two times the value lies between the two slices
NoOvershoot(f, p, ts) == \A k \in 1..(Len(f.times) - 1) : \A t \in ts :
    (f.times[k] <= t /\ t <= f.times[k + 1] /\ SliceAt(f, k, p) # NAN /\ SliceAt(f, k + 1, p) # NAN) => Between(TimeAt(f, t, p), SliceAt(f, k, p), SliceAt(f, k + 1, p))
\* a gap reaches to the times next to it, and no further
GapReach(f, p, ts) == \A t \in ts : TimeAt(f, t, p) = NAN =>
    \E k \in 1..Len(f.times) : SliceAt(f, k, p) = NAN
        /\ (k > 1 => t > f.times[k - 1]) /\ (k < Len(f.times) => t < f.times[k + 1])
=============================================================================
