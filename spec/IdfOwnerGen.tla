--------------------------- MODULE IdfOwnerGen ---------------------------
EXTENDS IdfOwner, Json
CONSTANTS Depth, Cad
VARIABLES S, hist, cnt, loops
R(A) == RandomElement(A)
Pct(p) == R(1..100) <= p
Live == { i \in 1..NOB : S.o[i].k # 0 }
Comps == { i \in 1..NCO : S.c[i].st \in {1, 2} }
Sides(k) == IF k \in {2, 6} THEN {0, 1} ELSE {0, 1, 2}
Loop == 1..8
\* loops which belong to no outline
FreeLoop == { l \in Loop : l \notin loops /\ \A i \in Live : ~Has(S.o[i].lp, l) }
Dia == {500, 1000}
XY == 0..1
\* one operation, chosen at random; <<>> when there is none
Gen == CHOOSE g \in {
    LET d == R(1..100) i == R(Live) k == S.o[i].k IN
    IF d <= 10 /\ \E j \in 1..NOB : S.o[j].k = 0
    THEN LET j == CHOOSE j \in 1..NOB : S.o[j].k = 0 /\ \A m \in 1..NOB : S.o[m].k = 0 => j <= m IN <<"mk", j, R(2..9), IF Pct(93) THEN 1 ELSE 0>>
    ELSE IF d <= 18 THEN <<"so", i, R(0..2)>>
    ELSE IF d <= 21 THEN <<"st", i, R({-1000, 0, 1000, 2500})>>
    ELSE IF d <= 23 THEN <<"bt", R({-1000, 0, 1200, 2000})>>
    ELSE IF d <= 27 THEN (IF k \in {2, 4, 6, 7, 8} THEN <<"ss", i, R(Sides(k))>> ELSE IF k \in {3, 5} THEN <<"ss", i, R(0..4)>> ELSE <<>>)
    ELSE IF d <= 30 THEN (IF k \in {2, 6, 8} THEN <<"sn", i, R(1..3)>> ELSE <<>>)
    ELSE IF d <= 33 THEN (IF k \in {4, 7} THEN <<"sh", i, R({0, 1000, 3000})>> ELSE <<>>)
    ELSE IF d <= 41 THEN (IF FreeLoop # {} /\ Pct(85) THEN <<"ao", i, R(FreeLoop)>> ELSE IF S.o[i].lp # <<>> /\ S.o[i].lp[1] # SLOT THEN <<"ao", i, S.o[i].lp[1]>> ELSE <<>>)
    ELSE IF d <= 45 THEN LET l == R(Loop) IN (IF S.o[i].lp # <<>> /\ Pct(80) THEN LET x == S.o[i].lp[R(1..Len(S.o[i].lp))] IN (IF x = SLOT THEN <<>> ELSE <<"dp", i, x>>) ELSE <<>>)
    ELSE IF d <= 49 THEN <<"di", i, R(0..2)>>
    ELSE IF d <= 51 THEN (IF Pct(50) THEN <<"cl", i>> ELSE <<>>)
    ELSE IF d <= 52 THEN <<"as">>
    ELSE IF d <= 57 THEN <<"ad", R(Dia), R(XY), R(XY), R(0..2)>>
    ELSE IF d <= 62 THEN (IF S.d # <<>> /\ Pct(80) THEN <<"dd">> \o SubSeq(S.d[R(1..Len(S.d))], 1, 3) ELSE <<"dd", R(Dia), R(XY), R(XY)>>)
    ELSE IF d <= 67 /\ \E j \in 1..NCO : S.c[j].st = 0 THEN LET j == CHOOSE j \in 1..NCO : S.c[j].st = 0 /\ \A m \in 1..NCO : S.c[m].st = 0 => j <= m IN <<"nc", j, R(1..4)>>
    ELSE IF Comps = {} THEN <<>>
    ELSE LET c == R(Comps) q == S.c[c] IN
    IF d <= 72 THEN (IF q.st = 1 THEN <<"ac", c>> ELSE <<>>)
    ELSE IF d <= 75 THEN (IF Pct(70) THEN <<"dc", c>> ELSE <<"dx", R(0..3)>>)
    ELSE IF d <= 81 THEN <<"cp", c, IF Pct(92) THEN R(0..3) ELSE 4>>
    ELSE IF d <= 83 THEN <<"cs", c, R(0..3), R(0..3), R({0, 90, 45}), R(0..2)>>
    ELSE IF d <= 85 THEN (IF q.st = 1 \/ ~MayC(S, c) THEN <<"cr", c, R(1..4)>> ELSE <<>>)
    ELSE IF d <= 88 THEN <<"ca", c, R(Dia), R(XY), R(XY), R(0..2)>>
    ELSE IF d <= 91 THEN (IF q.dr # <<>> /\ Pct(85) THEN (IF Pct(50) THEN <<"cd", c>> \o SubSeq(q.dr[R(1..Len(q.dr))], 1, 3) ELSE <<"cq", c, R(0..Len(q.dr) - 1)>>) ELSE <<"cd", c, R(Dia), R(XY), R(XY)>>)
    ELSE IF d <= 94 THEN <<"co", c>>
    ELSE IF q.of = <<>> THEN <<>>
    ELSE IF d <= 96 THEN (IF Pct(50) THEN <<"cx", c, R(0..2)>> ELSE <<"cy", c, R(0..Len(q.of) - 1)>>)
    ELSE IF d <= 98 THEN <<"cf", c, R(0..Len(q.of) - 1), R(0..3), R(0..3), R(0..3), R({0, 90})>>
    ELSE LET m == { j \in Live : S.o[j].k = 9 } IN IF m = {} THEN <<>> ELSE <<"cu", c, R(0..Len(q.of) - 1), R(m)>> } : TRUE
Init == S = Start(Cad) /\ hist = <<>> /\ cnt = 0 /\ loops = {}
(* loops handed over to an object and removed by it are gone *)
Next == /\ cnt < Depth /\ cnt' = cnt + 1
        /\ \E x \in {cnt} : \E g \in {Gen} :
           IF g = <<>> THEN UNCHANGED <<S, hist, loops>>
           ELSE \E Q \in {Apply(S, g[1], SubSeq(g, 2, Len(g)))} :
                /\ S' = Q.S /\ hist' = Append(hist, g)
                /\ loops' = loops \cup (IF g[1] = "ao" /\ Q.r = 1 THEN {g[3]} ELSE {})
Spec == Init /\ [][Next]_<<S, hist, cnt, loops>>
Inv == cnt = 0 \/ TRUE
RuleHolds == [][Protected(S, S')]_S
Emit == cnt < Depth \/ PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
