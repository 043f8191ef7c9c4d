------------------------------- MODULE Merged -------------------------------
(* The solid of an outline whose cutouts and holes cross the outline or one *)
(* another: what remains is bounded by those parts of the stated curves     *)
(* which are inside the outline and outside every other cutout. The faces   *)
(* built must run along exactly these parts, close the shell, and agree.    *)
EXTENDS Shell
H(v) == IF v >= 0 THEN (v + 5) \div 10 ELSE -((5 - v) \div 10)
H2(p) == <<H(p[1]), H(p[2])>>
Hun(lp) == [i \in DOMAIN lp |-> [k \in DOMAIN lp[i] |-> LET s == lp[i][k] IN [s EXCEPT !.a = H2(@), !.b = H2(@), !.c = H2(@)]]]      \* hundredths
Sq(p) == p[1] * p[1] + p[2] * p[2]
R2h(s) == Sq(Sub(s.a, s.c))
InDisc(s, p) == Sq(Sub(p, s.c)) < R2h(s)
Odd(S) == Cardinality(S) % 2 = 1
(* crossings of the chords to the right of p, and membership of the regions between chords and arcs *)
Right(s, p) == (s.a[2] > p[2]) # (s.b[2] > p[2]) /\ (Cross(Sub(s.b, s.a), Sub(p, s.a)) > 0) = (s.b[2] > s.a[2])
Lens(s, p) == InDisc(s, p) /\ LET t0 == Cross(Sub(s.b, s.a), Sub(p, s.a)) t == IF t0 # 0 THEN t0 ELSE IF s.a[2] = s.b[2] THEN s.b[1] - s.a[1] ELSE -1 IN IF s.w = 1 THEN t > 0 ELSE t < 0
In(o, p) == IF Len(o) = 1 THEN InDisc(o[1], p)
            ELSE Odd({ k \in DOMAIN o : Right(o[k], p) }) # Odd({ k \in DOMAIN o : o[k].k = 2 /\ Lens(o[k], p) })
(* p is within about m hundredths of the curve (arcs: of its circle) *)
Box(s, p, m) == p[1] >= (IF s.a[1] < s.b[1] THEN s.a[1] ELSE s.b[1]) - m /\ p[1] <= (IF s.a[1] < s.b[1] THEN s.b[1] ELSE s.a[1]) + m
                /\ p[2] >= (IF s.a[2] < s.b[2] THEN s.a[2] ELSE s.b[2]) - m /\ p[2] <= (IF s.a[2] < s.b[2] THEN s.b[2] ELSE s.a[2]) + m
Len1(q) == Abs(q[1]) + Abs(q[2])
NearH(s, p, m) == IF s.k = 1 THEN Box(s, p, m) /\ Abs(Cross(Sub(s.b, s.a), Sub(p, s.a))) <= m * Len1(Sub(s.b, s.a))
                  ELSE Abs(Sq(Sub(p, s.c)) - R2h(s)) <= 2 * m * Len1(Sub(s.a, s.c)) + m * m
Apart(h, i, p) == \A j \in DOMAIN h \ {i} : \A k \in DOMAIN h[j] : ~NearH(h[j][k], p, 5)
(* a point of curve i belongs to the boundary of what remains *)
Stays(h, i, p) == (i = 1 \/ In(h[1], p)) /\ \A j \in DOMAIN h \ {1, i} : ~In(h[j], p)
(* piece g runs along segment s *)
Along(s, g) == IF s.k = 1 THEN LET t == [k |-> 1, a |-> H2(s.a), b |-> H2(s.b)] IN \A n \in {2, 5, 8} : NearH(t, H2(P2(g, n)), 2) ELSE OfArc(s, g)
(* points of segment s, in hundredths *)
Dir == << <<1000, 0>>, <<924, 383>>, <<707, 707>>, <<383, 924>>, <<0, 1000>>, <<-383, 924>>, <<-707, 707>>, <<-924, 383>>, <<-1000, 0>>, <<-924, -383>>, <<-707, -707>>, <<-383, -924>>, <<0, -1000>>, <<383, -924>>, <<707, -707>>, <<924, -383>> >>
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
Points(s) == IF s.k = 1 THEN { <<s.a[1] + ((s.b[1] - s.a[1]) * n) \div 16, s.a[2] + ((s.b[2] - s.a[2]) * n) \div 16>> : n \in 1..15 }
             ELSE LET r == Root(R2h(s), 0, 40000) IN
                  { p \in { <<s.c[1] + (r * Dir[n][1]) \div 1000, s.c[2] + (r * Dir[n][2]) \div 1000>> : n \in DOMAIN Dir } :
                    s.k = 4 \/ LET t == Cross(Sub(s.b, s.a), Sub(p, s.a)) m == 4 * Len1(Sub(s.b, s.a)) IN IF s.w = 1 THEN t > m ELSE t < -m }
(* point p of segment s (hundredths) is on piece g *)
Covers(s, g, p) ==
    LET a == H2(P2(g, 2)) m == H2(P2(g, 5)) b == H2(P2(g, 8)) IN
    IF s.k = 1 THEN NearH([k |-> 1, a |-> a, b |-> b], p, 2)
    ELSE NearH([k |-> 2, a |-> a, b |-> b, c |-> s.c], p, 4) /\ NearH([k |-> 2, a |-> a, b |-> b, c |-> s.c], m, 4)
         /\ LET tm == Cross(Sub(b, a), Sub(m, a)) tp == Cross(Sub(b, a), Sub(p, a)) w == 4 * Len1(Sub(b, a)) IN IF tm > 0 THEN tp >= -w ELSE tp <= w
Lift(g, z) == [g EXCEPT ![4] = z, ![7] = z, ![10] = z]
(* the loops of the bottom are those of the top *)
Mate(t, b, z) == Len(t.lp) = Len(b.lp) /\ LET up(L) == [i \in DOMAIN L.g |-> Lift(L.g[i], z)] IN
    Pair(TLCEval([i \in DOMAIN t.lp |-> { j \in DOMAIN b.lp : (i = 1) = (j = 1) /\ SamePieces(t.lp[i].g, up(b.lp[j])) }]), DOMAIN b.lp)
MergedDiff(F, s) ==
    IF \E i \in DOMAIN F : F[i].c # 1 THEN {"incomplete surface"}
    ELSE IF \E i \in DOMAIN F : Len(F[i].lp) = 0 \/ \E j \in DOMAIN F[i].lp : ~GoodLoop(F[i].lp[j]) THEN {"trimming loop"}
    ELSE LET tops == { i \in DOMAIN F : AtZ(F[i], s.top) }
             bots == { i \in DOMAIN F : AtZ(F[i], s.bot) }
             walls == DOMAIN F \ (tops \cup bots)
         IN (IF Cardinality(tops) # 1 \/ Cardinality(bots) # 1 THEN {"planes"}
             ELSE LET t == F[CHOOSE i \in tops : TRUE] b == F[CHOOSE i \in bots : TRUE]
                      h == TLCEval(Hun(s.lp))
                      G == TLCEval(Pieces(t))
                  IN (IF Mate(t, b, s.top) THEN {} ELSE {"planes differ"})
                     \cup (IF \A n \in DOMAIN G : \E i \in DOMAIN h : \E k \in DOMAIN h[i] : Along(s.lp[i][k], G[n]) /\ LET m == H2(P2(G[n], 5)) IN Apart(h, i, m) => Stays(h, i, m) THEN {} ELSE {"edge where none is stated"})
                     \cup (IF \A i \in DOMAIN h : \A k \in DOMAIN h[i] : \A p \in Points(h[i][k]) : (Apart(h, i, p) /\ Stays(h, i, p)) => \E n \in DOMAIN G : Covers(h[i][k], G[n], p) THEN {} ELSE {"stated edge missing"})
                     \cup (IF \E k \in DOMAIN s.lp[1] : \E n \in DOMAIN t.lp[1].g : Along(s.lp[1][k], t.lp[1].g[n]) THEN {} ELSE {"outer loop"})
                     \cup (IF Cardinality(walls) = Len(G) THEN {} ELSE {"number of walls"}))
            \cup (IF \A i \in walls : IsWall(F[i], s.top, s.bot) THEN {} ELSE {"wall"})
            \cup (IF Tight(AllPieces(F)) THEN {} ELSE {"open edge"})
=============================================================================
