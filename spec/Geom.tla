------------------------------- MODULE Geom -------------------------------
(* Exact planar geometry of segments (lines, arcs, circles) with integer    *)
(* coordinates, and of the regions bounded by closed chains of them.        *)
(* A segment is [k, a, b, c, w]: k = 1 line, 2 arc, 4 circle (as in         *)
(* MCAD_SEGTYPE), a -> b in the drawn direction, c the centre, w = 1 when   *)
(* the arc is drawn clockwise.  Points that are common to two segments may  *)
(* be irrational: predicates on them are decided by the sign of             *)
(* u + v*sqrt(D) with integer u, v, D.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL Max2(a, b) == IF a > b THEN a ELSE b
LOCAL Min2(a, b) == IF a < b THEN a ELSE b
Sub(p, q) == <<p[1] - q[1], p[2] - q[2]>>
Cross(u, v) == u[1] * v[2] - u[2] * v[1]
Dot(u, v) == u[1] * v[1] + u[2] * v[2]
D2(p, q) == Dot(Sub(p, q), Sub(p, q))
Sgn(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
Abs(n) == IF n < 0 THEN -n ELSE n
SgnR(u, v, D) == IF v = 0 \/ D = 0 THEN Sgn(u) ELSE IF u = 0 THEN Sgn(v)
                 ELSE IF Sgn(u) = Sgn(v) THEN Sgn(u) ELSE Sgn(u) * Sgn(u * u - v * v * D)
Rad2(s) == D2(s.c, s.a)
(* counterclockwise start and end of an arc *)
S0(s) == IF s.k = 2 /\ s.w = 1 THEN s.b ELSE s.a
E0(s) == IF s.k = 2 /\ s.w = 1 THEN s.a ELSE s.b
ValidSeg(s) == IF s.k = 1 THEN s.a # s.b
               ELSE IF s.k = 2 THEN s.a # s.b /\ s.a # s.c /\ D2(s.c, s.a) = D2(s.c, s.b)
               ELSE s.k = 4 /\ s.a # s.c
Reversed(s) == [s EXCEPT !.a = s.b, !.b = s.a, !.w = IF s.k = 2 THEN 1 - s.w ELSE s.w]
(* a point of the circle is on the arc iff it is not to the left of the chord start -> end *)
OnSide(s, p) == s.k = 4 \/ Cross(Sub(E0(s), S0(s)), Sub(p, S0(s))) <= 0
OnSeg(s, p) == IF s.k = 1 THEN Cross(Sub(s.b, s.a), Sub(p, s.a)) = 0 /\ Dot(Sub(s.b, s.a), Sub(p, s.a)) >= 0 /\ Dot(Sub(s.a, s.b), Sub(p, s.b)) >= 0
               ELSE D2(p, s.c) = Rad2(s) /\ OnSide(s, p)
Ends(s) == IF s.k = 4 THEN {} ELSE {s.a, s.b}

(* ------------------------------------------------------ common points *)
(* n: number of common points, INF when they share a piece; tan: tangent;  *)
(* e: number of the common points that are an end of one of the segments;  *)
(* nt: not tangent, but closer to it than the library's resolution of 1e-3 *)
INF == 99
None == [n |-> 0, tan |-> FALSE, e |-> 0, nt |-> FALSE]
LineLine(s, t) ==
    LET d1 == Sub(s.b, s.a) d2 == Sub(t.b, t.a) q == Sub(t.a, s.a) den == Cross(d1, d2)
        sg == Sgn(den) x == Cross(q, d2) * sg y == Cross(q, d1) * sg m == Abs(den)
        L == Dot(d1, d1) p0 == Dot(q, d1) p1 == Dot(Sub(t.b, s.a), d1)
        lo == Max2(0, Min2(p0, p1)) hi == Min2(L, Max2(p0, p1))
    IN IF den # 0 THEN IF x >= 0 /\ x <= m /\ y >= 0 /\ y <= m
                       THEN [n |-> 1, tan |-> FALSE, nt |-> FALSE, e |-> IF x \in {0, m} \/ y \in {0, m} THEN 1 ELSE 0] ELSE None
       ELSE IF Cross(q, d1) # 0 \/ lo > hi THEN None
       ELSE IF lo = hi THEN [n |-> 1, tan |-> FALSE, nt |-> FALSE, e |-> 1]
       ELSE [n |-> INF, tan |-> FALSE, nt |-> FALSE, e |-> 0]
LineArc(s, t) ==
    LET d == Sub(s.b, s.a) f == Sub(s.a, t.c) A == Dot(d, d) B == Dot(f, d)
        D == B * B - A * (Dot(f, f) - Rad2(t))
        w == Sub(E0(t), S0(t)) X == Cross(w, Sub(s.a, S0(t))) Y == Cross(w, d)
        lo(v) == SgnR(-B, v, D) hi(v) == SgnR(-B - A, v, D)
        side(v) == IF t.k = 4 THEN -1 ELSE SgnR(A * X - B * Y, v * Y, D)
        R == IF D < 0 THEN {} ELSE { v \in (IF D = 0 THEN {1} ELSE {1, -1}) : lo(v) >= 0 /\ hi(v) <= 0 /\ side(v) <= 0 }
    IN [n |-> Cardinality(R), tan |-> D = 0 /\ R # {}, nt |-> FALSE, e |-> Cardinality({ v \in R : lo(v) = 0 \/ hi(v) = 0 \/ side(v) = 0 })]
ArcArc(s, t) ==
    LET d == Sub(t.c, s.c) m == Dot(d, d) r0 == Rad2(s) r1 == Rad2(t)
        g == m + r0 - r1 h == m + r1 - r0 D == 4 * m * r0 - g * g
        pd == <<-d[2], d[1]>>
        side0(v) == IF s.k = 4 THEN -1 ELSE LET w == Sub(E0(s), S0(s)) IN SgnR(2 * m * Cross(w, Sub(s.c, S0(s))) + g * Cross(w, d), v * Cross(w, pd), D)
        side1(v) == IF t.k = 4 THEN -1 ELSE LET w == Sub(E0(t), S0(t)) IN SgnR(2 * m * Cross(w, Sub(t.c, S0(t))) - h * Cross(w, d), v * Cross(w, pd), D)
        R == IF D < 0 THEN {} ELSE { v \in (IF D = 0 THEN {1} ELSE {1, -1}) : side0(v) <= 0 /\ side1(v) <= 0 }
        within(x, y) == x.k = 4 \/ y.k = 4 \/ (\E p \in Ends(x) : OnSeg(y, p) /\ p \notin Ends(y))
    IN IF m = 0 THEN IF r0 # r1 THEN None
                     ELSE IF within(s, t) \/ within(t, s) \/ (S0(s) = S0(t) /\ E0(s) = E0(t)) THEN [n |-> INF, tan |-> FALSE, nt |-> FALSE, e |-> 0]
                     ELSE [n |-> Cardinality(Ends(s) \cap Ends(t)), tan |-> FALSE, nt |-> FALSE, e |-> Cardinality(Ends(s) \cap Ends(t))]
       ELSE [n |-> Cardinality(R), tan |-> D = 0 /\ R # {}, nt |-> D # 0 /\ Abs(D) <= 12, e |-> Cardinality({ v \in R : side0(v) = 0 \/ side1(v) = 0 })]
Common(s, t) == IF s.k = 1 /\ t.k = 1 THEN LineLine(s, t) ELSE IF s.k = 1 THEN LineArc(s, t) ELSE IF t.k = 1 THEN LineArc(t, s) ELSE ArcArc(s, t)
(* circle s inside circle t, possibly touching it (the distance of the centres is at most r(t) - r(s)) *)
CircleIn(s, t) == LET m == D2(s.c, t.c) r0 == Rad2(s) r1 == Rad2(t) g == r0 + r1 - m IN
                  r0 < r1 /\ g > 0 /\ g * g >= 4 * r0 * r1

(* ----------------------------------------------------------- regions *)
(* even-odd crossing of a ray to +x; a point on an edge counts as moved by (eps, eps^2) *)
CrossesRay(a, b, p) == ((a[2] > p[2]) # (b[2] > p[2])) /\
    LET lo == IF a[2] < b[2] THEN a ELSE b hi == IF a[2] < b[2] THEN b ELSE a
    IN Cross(Sub(hi, lo), Sub(p, lo)) > 0
(* p (moved likewise) in the circular segment between the arc s and its chord *)
SideOf(u, q) == LET z == Cross(u, q) IN IF z # 0 THEN Sgn(z) ELSE IF u[2] # 0 THEN -Sgn(u[2]) ELSE Sgn(u[1])
InCap(s, p) == D2(p, s.c) < Rad2(s) /\ SideOf(Sub(E0(s), S0(s)), Sub(p, S0(s))) < 0
OnBoundary(segs, p) == \E i \in DOMAIN segs : OnSeg(segs[i], p)
Inside(segs, p) ==
    IF Len(segs) = 1 THEN D2(p, segs[1].c) < Rad2(segs[1])
    ELSE Cardinality({ i \in DOMAIN segs : CrossesRay(segs[i].a, segs[i].b, p) # (segs[i].k = 2 /\ InCap(segs[i], p)) }) % 2 = 1
(* a closed chain that does not meet itself *)
Simple(segs) ==
    LET n == Len(segs) IN
    IF n = 1 THEN segs[1].k = 4
    ELSE \A i, j \in 1..n : i < j =>
            LET z == Common(segs[i], segs[j]).n IN
            IF n = 2 THEN z = 2 ELSE z = (IF j = i + 1 \/ (i = 1 /\ j = n) THEN 1 ELSE 0)
(* how two boundaries meet: number of common points, and whether all of them are proper crossings; a common point at *)
(* a corner is one when there are two in all and the chain has points strictly inside and strictly outside the other *)
Corners(A) == IF A[1].k = 4 THEN LET q == Sub(A[1].a, A[1].c) c == A[1].c IN {A[1].a, <<c[1] - q[2], c[2] + q[1]>>, <<c[1] - q[1], c[2] - q[2]>>, <<c[1] + q[2], c[2] - q[1]>>}
              ELSE { A[i].a : i \in DOMAIN A }
InAndOut(A, B) == (\E p \in Corners(A) : ~OnBoundary(B, p) /\ Inside(B, p)) /\ (\E p \in Corners(A) : ~OnBoundary(B, p) /\ ~Inside(B, p))
Meet(A, B) ==
    LET J == (DOMAIN A) \X (DOMAIN B)
        c == TLCEval([ij \in J |-> Common(A[ij[1]], B[ij[2]])])
        RECURSIVE sum(_)
        sum(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN c[x].n - c[x].e + sum(T \ {x})
        good == \A x \in J : c[x].n # INF /\ ~c[x].tan /\ ~c[x].nt
        V == { p \in (IF A[1].k = 4 THEN {} ELSE Corners(A)) : OnBoundary(B, p) } \cup { p \in (IF B[1].k = 4 THEN {} ELSE Corners(B)) : OnBoundary(A, p) }
        n == IF ~good THEN INF ELSE sum(J) + Cardinality(V)
    IN [n |-> n, at |-> { x \in J : c[x].n # 0 }, gen |-> good /\ (V = {} \/ (n = 2 /\ (InAndOut(A, B) \/ InAndOut(B, A))))]
=============================================================================
