--------------------------------- MODULE Rat ---------------------------------
(* Exact rational arithmetic for the specification.  A rational is <<n, d>>   *)
(* with d > 0 and gcd(|n|, d) = 1.  Observed values that are not ordinary     *)
(* numbers are carried as marked pairs with denominator 0: see MASKED, NAN... *)
EXTENDS Integers, Sequences

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(x) == IF x < 0 THEN -x ELSE x

R(n) == <<n, 1>>
NormRat(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
                     g == Gcd(Abs(n), Abs(d))
                 IN IF n = 0 THEN <<0, 1>> ELSE <<(s * n) \div g, (s * d) \div g>>
Frac(n, d) == NormRat(n, d)

RAdd(a, b) == IF a[2] = b[2] THEN NormRat(a[1] + b[1], a[2])
              ELSE LET g == Gcd(a[2], b[2])
                   IN NormRat(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == LET g1 == Gcd(Abs(a[1]), b[2])
                  g2 == Gcd(Abs(b[1]), a[2])
                  h1 == IF g1 = 0 THEN 1 ELSE g1
                  h2 == IF g2 = 0 THEN 1 ELSE g2
              IN NormRat((a[1] \div h1) * (b[1] \div h2), (a[2] \div h2) * (b[2] \div h1))
RInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
RSign(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0
RLt(a, b) == RSign(RSub(a, b)) < 0
RLe(a, b) == RSign(RSub(a, b)) <= 0
REq(a, b) == a = b
RZero == <<0, 1>>
ROne == <<1, 1>>

\* markers for observed values (never produced by the operators above)
OFFGRID == <<0, 0>>   \* a float that is no small rational
MASKED  == <<1, 0>>
NAN     == <<2, 0>>
INF     == <<3, 0>>

RECURSIVE RSumSeq(_)
RSumSeq(s) == IF s = <<>> THEN RZero ELSE RAdd(Head(s), RSumSeq(Tail(s)))

\* linear blend (1-w)*a + w*b
RLerp(a, b, w) == RAdd(a, RMul(w, RSub(b, a)))
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
=============================================================================
