------------------------------- MODULE Shell -------------------------------
(* Boundary representation of an extruded outline. A solid is stated as     *)
(*   [top, bot : heights, lp : sequence of closed outlines, first is outer] *)
(* an outline is a sequence of segments                                     *)
(*   [k : 1 line / 2 arc / 4 circle, a, b : ends, c : centre, w : 1 if the  *)
(*    arc runs clockwise from a to b]        -- all in thousandths          *)
(* and what was built is a sequence of faces                                *)
(*   [c : 1 if complete, lp : sequence of [g, u : sequences of pieces]]     *)
(* g in model space, u the parameter space curve mapped by the surface;     *)
(* a piece is <<kind, start xyz, middle xyz, end xyz, ...>>.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT TOL
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Big == 60000
Sane(p) == \A i \in 2..10 : Abs(p[i]) <= Big
At3(p, i, q, j) == Abs(p[i] - q[j]) <= TOL /\ Abs(p[i + 1] - q[j + 1]) <= TOL /\ Abs(p[i + 2] - q[j + 2]) <= TOL
(* the same curve, in either direction *)
Same(p, q) == At3(p, 5, q, 5) /\ ((At3(p, 2, q, 2) /\ At3(p, 8, q, 8)) \/ (At3(p, 2, q, 8) /\ At3(p, 8, q, 2)))
Flat(p) == \A i \in 0..2 : Abs(p[2 + i] - p[8 + i]) <= TOL /\ Abs(p[2 + i] - p[5 + i]) <= TOL      \* no extent at all
Chain(g) == Len(g) > 0 /\ \A i \in DOMAIN g : At3(g[i], 8, g[IF i = Len(g) THEN 1 ELSE i + 1], 2)
ChainUV(u) == \A i \in DOMAIN u : LET v == u[IF i = Len(u) THEN 1 ELSE i + 1] IN Abs(u[i][13] - v[11]) <= 3 /\ Abs(u[i][14] - v[12]) <= 3
(* a one to one correspondence: the i-th thing goes with one of the set C[i], everything of S is used *)
RECURSIVE Pair(_, _)
Pair(C, S) == IF C = <<>> THEN S = {} ELSE LET m == C[1] \cap S IN m # {} /\ Pair(Tail(C), S \ {CHOOSE x \in m : TRUE})
SamePieces(g, u) == Len(g) = Len(u) /\ Pair(TLCEval([i \in DOMAIN g |-> { j \in DOMAIN u : Same(g[i], u[j]) }]), DOMAIN u)
GoodLoop(L) == /\ Len(L.g) > 0 /\ Len(L.u) > 0
               /\ (\A i \in DOMAIN L.g : Sane(L.g[i]) /\ ~Flat(L.g[i])) /\ (\A i \in DOMAIN L.u : Sane(L.u[i]))
               /\ Chain(L.g) /\ Chain(L.u) /\ ChainUV(L.u) /\ SamePieces(L.g, L.u)
Pieces(f) == LET RECURSIVE go(_)
                 go(i) == IF i > Len(f.lp) THEN <<>> ELSE f.lp[i].g \o go(i + 1)
             IN go(1)
AllPieces(F) == LET RECURSIVE go(_)
                    go(i) == IF i > Len(F) THEN <<>> ELSE Pieces(F[i]) \o go(i + 1)
                IN go(1)
(* every edge of the shell belongs to exactly two faces, or is met twice by one face *)
Tight(A) == \A i \in DOMAIN A : Cardinality({ j \in DOMAIN A : Same(A[i], A[j]) }) = 2
(* ---- planar pieces against the stated outline (coordinates in thousandths) *)
Cross(p, q) == p[1] * q[2] - p[2] * q[1]
Sub(p, q) == <<p[1] - q[1], p[2] - q[2]>>
P2(p, i) == <<p[i], p[i + 1]>>
Near2(p, q) == Abs(p[1] - q[1]) <= TOL /\ Abs(p[2] - q[2]) <= TOL
R2(s) == LET d == Sub(s.a, s.c) IN d[1] * d[1] + d[2] * d[2]
Close(s, p) == Abs(p[1] - s.c[1]) <= 20000 /\ Abs(p[2] - s.c[2]) <= 20000
RTol(s) == 4 * TOL * (Abs(s.a[1] - s.c[1]) + Abs(s.a[2] - s.c[2])) + 100
OnCircle(s, p) == Close(s, p) /\ LET d == Sub(p, s.c) IN Abs(d[1] * d[1] + d[2] * d[2] - R2(s)) <= RTol(s)
(* the arc lies on the right of the chord from its counterclockwise start to its end; the coordinates are halved for 32 bits *)
OnSide(s, p) == LET st == IF s.w = 1 THEN s.b ELSE s.a en == IF s.w = 1 THEN s.a ELSE s.b
                    ch == Sub(en, st) q == Sub(p, st)
                IN Cross(<<ch[1] \div 4, ch[2] \div 4>>, <<q[1] \div 4, q[2] \div 4>>) <= 4 * TOL * (Abs(ch[1]) \div 4 + Abs(ch[2]) \div 4 + 8)
OnArc(s, p) == OnCircle(s, p) /\ (s.k = 4 \/ OnSide(s, p))
IsLine(s, p) == /\ (Near2(P2(p, 2), s.a) /\ Near2(P2(p, 8), s.b)) \/ (Near2(P2(p, 2), s.b) /\ Near2(P2(p, 8), s.a))
                /\ Abs(2 * p[5] - s.a[1] - s.b[1]) <= 2 * TOL /\ Abs(2 * p[6] - s.a[2] - s.b[2]) <= 2 * TOL
OfArc(s, p) == OnArc(s, P2(p, 2)) /\ OnArc(s, P2(p, 5)) /\ OnArc(s, P2(p, 8))
Of(s, p) == IF s.k = 1 THEN IsLine(s, p) ELSE OfArc(s, p)
EndsAt(p, q) == Near2(P2(p, 2), q) \/ Near2(P2(p, 8), q)
(* loop L runs along outline o at height z *)
Follows(L, o, z) ==
    /\ \A i \in DOMAIN L.g : Abs(L.g[i][4] - z) <= TOL /\ Abs(L.g[i][7] - z) <= TOL /\ Abs(L.g[i][10] - z) <= TOL
    /\ \A i \in DOMAIN L.g : \E k \in DOMAIN o : Of(o[k], L.g[i])
    /\ \A i, j \in DOMAIN L.g : i < j => ~Same(L.g[i], L.g[j])
    /\ \A k \in DOMAIN o : LET m == { i \in DOMAIN L.g : Of(o[k], L.g[i]) } IN
         IF o[k].k = 1 THEN Cardinality(m) = 1
         ELSE IF o[k].k = 4 THEN m = DOMAIN L.g /\ Len(L.g) >= 2
         ELSE \A q \in {o[k].a, o[k].b} : Cardinality({ i \in m : EndsAt(L.g[i], q) }) = 1
AtZ(f, z) == \A i \in DOMAIN f.lp : \A j \in DOMAIN f.lp[i].g : LET p == f.lp[i].g[j] IN Abs(p[4] - z) <= TOL /\ Abs(p[7] - z) <= TOL /\ Abs(p[10] - z) <= TOL
Upright(p) == Near2(P2(p, 2), P2(p, 8)) /\ Near2(P2(p, 2), P2(p, 5))
(* a wall: one piece at each height, one above the other, joined by two upright edges *)
IsWall(f, top, bot) ==
    /\ Len(f.lp) = 1 /\ Len(f.lp[1].g) = 4
    /\ LET g == f.lp[1].g
           lev(z) == { i \in 1..4 : Abs(g[i][4] - z) <= TOL /\ Abs(g[i][7] - z) <= TOL /\ Abs(g[i][10] - z) <= TOL }
           up == { i \in 1..4 : Upright(g[i]) /\ Abs(g[i][4] + g[i][10] - top - bot) <= 2 * TOL /\ Abs(2 * g[i][7] - top - bot) <= 2 * TOL }
       IN /\ Cardinality(lev(top)) = 1 /\ Cardinality(lev(bot)) = 1 /\ Cardinality(up) = 2
          /\ LET a == g[CHOOSE i \in lev(top) : TRUE] b == g[CHOOSE i \in lev(bot) : TRUE]
             IN Near2(P2(a, 5), P2(b, 5)) /\ ((Near2(P2(a, 2), P2(b, 2)) /\ Near2(P2(a, 8), P2(b, 8))) \/ (Near2(P2(a, 2), P2(b, 8)) /\ Near2(P2(a, 8), P2(b, 2))))
PlaneOK(f, s, z) == /\ Len(f.lp) = Len(s.lp) /\ Follows(f.lp[1], s.lp[1], z)
                    /\ Pair(TLCEval([i \in 1..(Len(s.lp) - 1) |-> { j \in DOMAIN f.lp : j > 1 /\ Follows(f.lp[j], s.lp[i + 1], z) }]), DOMAIN f.lp \ {1})
(* what is wrong with the faces F built for solid s *)
ShellDiff(F, s) ==
    IF \E i \in DOMAIN F : F[i].c # 1 THEN {"incomplete surface"}
    ELSE IF \E i \in DOMAIN F : Len(F[i].lp) = 0 \/ \E j \in DOMAIN F[i].lp : ~GoodLoop(F[i].lp[j]) THEN {"trimming loop"}
    ELSE LET tops == { i \in DOMAIN F : AtZ(F[i], s.top) }
             bots == { i \in DOMAIN F : AtZ(F[i], s.bot) }
             walls == DOMAIN F \ (tops \cup bots)
         IN (IF Cardinality(tops) # 1 \/ Cardinality(bots) # 1 THEN {"planes"}
             ELSE LET t == F[CHOOSE i \in tops : TRUE] b == F[CHOOSE i \in bots : TRUE] IN
                  (IF PlaneOK(t, s, s.top) THEN {} ELSE {"top plane"})
                  \cup (IF PlaneOK(b, s, s.bot) THEN {} ELSE {"bottom plane"})
                  \cup (IF Cardinality(walls) = Len(Pieces(t)) THEN {} ELSE {"number of walls"}))
            \cup (IF \A i \in walls : IsWall(F[i], s.top, s.bot) THEN {} ELSE {"wall"})
            \cup (IF Tight(AllPieces(F)) THEN {} ELSE {"open edge"})
=============================================================================
