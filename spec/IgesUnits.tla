----------------------------- MODULE IgesUnits -----------------------------
(* Units and model scale: which parameters of an entity are lengths, and    *)
(* what a change of unit or scale makes of them, in exact decimal           *)
(* arithmetic.  <<0, 99>> stands for a value which is not predicted (not    *)
(* representable with nine decimal digits).                                 *)
EXTENDS EntityGraph, IgesFile
OPEN == <<0, 99>>
\* how many of each unit make 0.495 inch = 12.573 mm, by unit flag (3: unit defined elsewhere)
PerUnit == << <<495, 0>>, <<12573, 0>>, OPEN, <<4125, -2>>, <<78125, -7>>, <<12573, -3>>, <<12573, -6>>, <<495, 3>>, <<12573, 3>>, <<12573, -1>>, <<495, 6>> >>

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE DivM(_, _, _)      \* the digits and exponent of m * 10^e / f, f coprime to nothing in particular
DivM(m, e, f) == IF m % f = 0 THEN <<m \div f, e>> ELSE IF m > 200000000 THEN OPEN ELSE DivM(10 * m, e - 1, f)
\* q * n / d for positive decimals n and d
Ratio(q, n, d) ==
    IF q[1] = 0 \/ q = OPEN THEN q
    ELSE IF Abs(q[1]) > 99999999 THEN OPEN       \* perhaps a rounded value
    ELSE LET g == Gcd(n[1], d[1])
             r == DivM(Abs(q[1]), q[2] - d[2], d[1] \div g)
             f == n[1] \div g IN
         IF r = OPEN THEN OPEN
         ELSE IF r[1] > 2000000000 \div f THEN OPEN
         ELSE LET z == NormE(r[1] * f, r[2] + n[2]) IN
              IF z[1] > 999999999 THEN OPEN ELSE IF q[1] < 0 THEN <<-z[1], z[2]>> ELSE z

\* q > 17000000, q < 6e-8 (q a positive decimal of few digits)
TooBig(q) == q[2] > 7 \/ (q[2] >= 0 /\ q[1] > 17000000 \div 10^q[2])
TooSmall(q) == q[1] <= 0 \/ (q[2] < -7 /\ (q[2] < -16 \/ q[1] < 6 * 10^(-8 - q[2])))
PInt(p, i) == IF i \in DOMAIN p THEN (IF p[i] = OPEN THEN 0 ELSE AsInt(p[i])) ELSE 0
\* the power of a length which parameter i of an entity of kind k is
Dim(k, p, i) ==
    CASE k = 100 -> 1
      [] k = 104 -> IF i <= 3 THEN 0 ELSE IF i = 6 THEN 2 ELSE 1
      [] k = 110 -> 1
      [] k = 122 -> 1
      [] k = 124 -> IF i % 4 = 0 THEN 1 ELSE 0
      [] k = 126 -> LET c == 7 + PInt(p, 1) + PInt(p, 2) IN IF i <= c THEN 0 ELSE IF PInt(p, 3) = 1 /\ (i - c) % 4 = 0 THEN 0 ELSE 1
      [] k = 128 -> LET c == 13 + PInt(p, 1) + PInt(p, 2) + PInt(p, 3) + PInt(p, 4) IN IF i <= c THEN 0 ELSE IF PInt(p, 5) = 1 /\ (i - c) % 4 = 0 THEN 0 ELSE 1
      [] k = 154 -> IF i <= 5 THEN 1 ELSE 0
      [] k = 164 -> IF i = 1 THEN 1 ELSE 0
      [] k = 408 -> IF i <= 3 THEN 1 ELSE 0
      [] OTHER -> 0
\* is parameter i of a curve an x or y coordinate?
XY(k, p, i) ==
    CASE k = 100 -> i # 1
      [] k = 104 -> i # 7
      [] k = 110 -> i % 3 # 0
      [] k = 126 -> LET c == 7 + PInt(p, 1) + PInt(p, 2) w == IF PInt(p, 3) = 1 THEN 4 ELSE 3 IN (i - c - 1) % w # 2
      [] OTHER -> TRUE
\* curves in the parameter space of a surface: 142's B, and the members of a composite curve which is one
IsB(T, i) == \E j \in Parents(T, i) : T.e[j].k = 142 /\ T.e[j].s[2] = i
InPS(T, i) == T.e[i].k \in {100, 102, 104, 110, 126} /\ (IsB(T, i) \/ \E j \in Parents(T, i) : T.e[j].k = 102 /\ IsB(T, j))
\* ... and nothing but that
OnlyB(T, i) == \A j \in Parents(T, i) : T.e[j].k = 142 /\ T.e[j].s[2] = i /\ T.e[j].s[3] # i
OnlyPS(T, i) == \A j \in Parents(T, i) : (T.e[j].k = 142 /\ T.e[j].s[2] = i /\ T.e[j].s[3] # i) \/ (T.e[j].k = 102 /\ IsB(T, j) /\ OnlyB(T, j))

\* parameter i of entity x (kind k, parameters p) multiplied by the ratio n/d of lengths
Scaled(T, x, p, i, n, d) ==
    LET k == T.e[x].k
        g == Dim(k, p, i)
        one == Ratio(p[i], n, d) IN
    IF g = 0 THEN p[i]
    ELSE IF InPS(T, x) THEN IF XY(k, p, i) /\ OnlyPS(T, x) THEN p[i] ELSE OPEN
    ELSE IF k = 124 /\ \E j \in Parents(T, x) : InPS(T, j) \/ (T.e[j].k = 124 /\ \E h \in Parents(T, j) : InPS(T, h)) THEN OPEN
    ELSE IF g = 1 THEN one ELSE Ratio(one, n, d)
=============================================================================
