----------------------------- MODULE GeomState -----------------------------
(* The outline machine: chains under construction, closed regions (the set *)
(* of probe points inside), union, difference and cutouts.                 *)
EXTENDS Geom
Probes == [i \in 1..121 |-> <<((i - 1) % 11) - 1, ((i - 1) \div 11) - 1>>]
(* 1 inside, 0 outside, 2 on the boundary *)
Region(segs) == TLCEval([i \in 1..121 |-> IF OnBoundary(segs, Probes[i]) THEN 2 ELSE IF Inside(segs, Probes[i]) THEN 1 ELSE 0])
NewOutline == [segs |-> <<>>, closed |-> FALSE, in |-> <<>>, parts |-> <<>>, sb |-> {}, cu |-> <<>>, hc |-> <<>>, live |-> TRUE]
NoOutline == [NewOutline EXCEPT !.live = FALSE]
CanAdd(o, s) == ValidSeg(s) /\ ~o.closed /\ (IF s.k = 4 THEN o.segs = <<>> ELSE o.segs = <<>> \/ o.segs[Len(o.segs)].b = s.a)
DoAdd(o, s) ==
    LET g == Append(o.segs, s)
        c == s.k = 4 \/ (Len(g) > 1 /\ s.b = g[1].a)
    IN [o EXCEPT !.segs = g, !.closed = c, !.in = IF c THEN Region(g) ELSE <<>>, !.parts = IF c THEN <<g>> ELSE <<>>]
Union(a, b) == [i \in 1..121 |-> IF a[i] = 1 \/ b[i] = 1 THEN 1 ELSE IF a[i] = 2 \/ b[i] = 2 THEN 2 ELSE 0]
Diff(a, b) == [i \in 1..121 |-> IF a[i] = 0 \/ b[i] = 1 THEN 0 ELSE IF a[i] = 1 /\ b[i] = 0 THEN 1 ELSE 2]
(* bounding box, radius rounded up *)
RECURSIVE Isqrt(_, _)
Isqrt(n, r) == IF r * r >= n THEN r ELSE Isqrt(n, r + 1)
SegBox(s) == IF s.k = 1 THEN <<IF s.a[1] < s.b[1] THEN s.a[1] ELSE s.b[1], IF s.a[2] < s.b[2] THEN s.a[2] ELSE s.b[2],
                               IF s.a[1] > s.b[1] THEN s.a[1] ELSE s.b[1], IF s.a[2] > s.b[2] THEN s.a[2] ELSE s.b[2]>>
             ELSE LET r == Isqrt(Rad2(s), 0) IN <<s.c[1] - r, s.c[2] - r, s.c[1] + r, s.c[2] + r>>
Min(x, y) == IF x < y THEN x ELSE y
Max(x, y) == IF x > y THEN x ELSE y
PartBox(A) == LET b == [i \in DOMAIN A |-> SegBox(A[i])]
                  RECURSIVE go(_)
                  go(i) == IF i = 1 THEN b[1] ELSE LET r == go(i - 1) IN <<Min(r[1], b[i][1]), Min(r[2], b[i][2]), Max(r[3], b[i][3]), Max(r[4], b[i][4])>>
              IN go(Len(A))
Apart(A, B) == \A i \in DOMAIN A, j \in DOMAIN B :
    LET x == SegBox(A[i]) y == SegBox(B[j]) IN x[3] < y[1] \/ y[3] < x[1] \/ x[4] < y[2] \/ y[4] < x[2]
(* how the chain B meets the boundary of the current outline, when this can be told from the original chains *)
(* "no": nowhere; "two": two proper crossings; "many": more; "any": touching, overlapping or not known          *)
How(o, B) ==
    LET near == { i \in DOMAIN o.parts : ~Apart(o.parts[i], B) } IN
    IF near = {} THEN "no"
    ELSE LET m == [i \in near |-> TLCEval(Meet(o.parts[i], B))] IN
    IF \A i \in near : m[i].n = 0 THEN "no"
    (* a crossing with one part that is far from all others is a crossing with the outline, or with none of it when the part was subtracted *)
    ELSE LET X(x, y) == <<Max(x[1], y[1]), Max(x[2], y[2]), Min(x[3], y[3]), Min(x[4], y[4])>>
             clean == \A i \in near : \A ij \in m[i].at : LET b == X(SegBox(o.parts[i][ij[1]]), SegBox(B[ij[2]])) IN
                        \A k \in DOMAIN o.parts \ {i} : LET y == PartBox(o.parts[k]) IN b[3] < y[1] \/ y[3] < b[1] \/ b[4] < y[2] \/ y[4] < b[2]
             RECURSIVE sum(_)
             sum(T) == IF T = {} THEN 0 ELSE LET i == CHOOSE i \in T : TRUE IN m[i].n + sum(T \ {i})
             n == sum(near \ o.sb)
         IN IF ~clean \/ (\E i \in near : ~m[i].gen) THEN "any" ELSE IF n = 0 THEN "no" ELSE IF n = 2 THEN "two" ELSE "many"
=============================================================================
