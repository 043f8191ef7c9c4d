----------------------------- MODULE EntityGen -----------------------------
(* Behaviours of EntityGraph, for replay into the real library: random     *)
(* walks (tlc -simulate) whose operations are drawn by profile.            *)
EXTENDS EntityGraph, Json
CONSTANTS Profile, NE, NM, Depth
VARIABLES S, n, hist

R(q) == RandomElement(q)
Pct(x) == R(1..100) <= x
Pick(q) == IF q = {} THEN 0 ELSE R(q)
LiveM == { m \in 1..NM : S.m[m] # <<-1>> }
L == Live(S)
K(k) == { i \in L : S.e[i].k \in k }

Kinds == CASE Profile = "chain" -> <<110, 110, 110, 126, 100, 102, 102, 164, 122>>
           [] Profile = "trim"  -> <<128, 122, 110, 102, 142, 142, 144, 144, 308, 110, 100, 408>>
           [] Profile = "place" -> <<110, 110, 126, 100, 104, 102, 102, 124, 124, 124, 124, 124>>
           [] Profile = "assy"  -> <<308, 308, 408, 408, 144, 128, 142, 110, 124, 314>>
           [] Profile = "file" -> <<100, 102, 104, 110, 110, 120, 122, 122, 124, 126, 128, 142, 142, 144, 144, 154, 164, 180, 308, 314, 406, 408>>
           [] Profile = "solid" -> <<154, 154, 164, 180, 180, 100, 124, 308, 408, 314>>
           [] OTHER -> <<100, 102, 104, 110, 120, 122, 124, 126, 128, 142, 144, 154, 164, 180, 308, 314, 406, 408>>

Good(p, i) ==   \* children a slot accepts by type
    LET k == S.e[p].k IN
    CASE i = 8 -> K({124}) [] i = 9 -> K({314})
      [] k = 120 -> IF i = 1 THEN K({110}) ELSE K(Curves)
      [] k = 122 -> K(Curves) [] k = 164 -> K({100, 102, 126})
      [] k = 142 -> IF i = 1 THEN K({128, 122, 120}) ELSE K(Curves)
      [] k = 144 -> IF i = 1 THEN K({128, 122, 120}) ELSE K({142})
      [] k = 408 -> K({308})
      [] OTHER -> {}
GoodL(p) == LET k == S.e[p].k IN
    CASE k = 102 -> K(Curves \ {102}) [] k = 144 -> K({142}) [] k = 180 -> K({154, 164, 180})
      [] k = 308 -> K({144, 408, 154, 180, 164, 142, 110}) [] OTHER -> {}
Slots(k) == CASE k = 120 -> {1, 2} [] k \in {122, 164, 408} -> {1} [] k = 142 -> {1, 2, 3} [] k = 144 -> {1, 2} [] OTHER -> {}

\* an operand: mostly acceptable by type, sometimes anything, sometimes NULL
Child(q) == IF q # {} /\ Pct(75) THEN R(q) ELSE IF Pct(70) THEN Pick(L) ELSE 0
OpNew  == LET a == R(0..4) IN {<<"new", R(LiveM), n, Kinds[R(1..Len(Kinds))], a, R((0..4) \ {a})>>}
OpSet  == LET ps == K({120, 122, 142, 144, 164, 408}) IN
          IF ps = {} \/ Pct(25) THEN
              (IF L = {} THEN {} ELSE LET p == R(L) i == R({8, 9}) IN {<<"set", p, i, Child(Good(p, i))>>})
          ELSE LET p == R(ps) i == R(Slots(S.e[p].k)) IN {<<"set", p, i, Child(Good(p, i))>>}
OpApp  == LET ps == K({102, 144, 180, 308}) IN
          IF ps = {} THEN {} ELSE LET p == R(ps) c == Child(GoodL(p)) IN
             {<<"app", p, c>>}
OpRem  == LET ps == K({144, 308}) IN
          IF ps = {} THEN {} ELSE LET p == R(ps) IN {<<"rem", p, IF S.e[p].l # <<>> /\ Pct(80) THEN R(Range(S.e[p].l)) ELSE Pick(L)>>}
OpXtr  == IF L = {} THEN {} ELSE LET p == R(L) IN
          IF S.e[p].e # <<>> /\ Pct(50) THEN {<<"xrm", p, IF Pct(80) THEN R(Range(S.e[p].e)) ELSE Pick(L)>>}
          ELSE {<<"xap", p, Child(K({406}))>>}
OpTree == LET ps == K({180}) IN IF ps = {} THEN {} ELSE {IF Pct(85) THEN <<"top", R(ps), R(0..4)>> ELSE <<"tcl", R(ps)>>}
AttrVals(i) == CASE i = 1 -> 0..3 [] i = 2 -> 0..6 [] i = 3 -> 0..2 [] i = 4 -> {0, 1} [] i = 5 -> {-1, 0, 1, 3, 8, 9}
                 [] i = 6 -> {-1, 0, 1, 77} [] i = 7 -> {-1, 0, 2, 4, 5} [] i = 8 -> {-1, 0, 42, 99999999, 100000000}
                 [] i = 9 -> {-1, 0, 1, 5, 6} [] OTHER -> {-1, 0, 1, 2, 3, 4, 5, 6, 9, 10, 12, 13, 15}
OpAt   == IF L = {} THEN {} ELSE LET i == IF Profile = "attr" \/ Pct(30) THEN R(1..10) ELSE 1 IN {<<"at", R(L), i, R(AttrVals(i))>>}
OpOwn  == LET m == R(LiveM) c == IF Profile = "file" THEN 99 ELSE R(1..100) IN
          IF c <= 40 THEN {<<"add", m, Pick(L)>>}
          ELSE IF c <= 65 THEN {<<"unl", m, Pick(L)>>}
          ELSE {<<"del", m, IF S.m[m] # <<>> /\ Pct(85) THEN R(Range(S.m[m])) ELSE Pick(L)>>}
OpFree == LET q == { i \in L : S.e[i].o = 0 } IN IF q = {} THEN {} ELSE {<<"free", R(q)>>}
OpMod  == LET m == R(1..NM) IN
          IF S.m[m] = <<-1>> THEN {<<"M", m>>}
          ELSE IF Cardinality(LiveM) > 1 /\ Pct(40) THEN {<<"Mx", m>>} ELSE {<<"clear", m>>}
OpCull == {<<"cull", R(LiveM), IF Pct(15) THEN 1 ELSE 0>>}
OpWrite == {<<"write", R(LiveM), "w.igs", 1>>}
\* geometry: end points, matrices and resolutions
Coord == {0, 1000, 3000, 4000, 6000}
Noise == IF Pct(80) THEN 0 ELSE R({1, -1, 400, 600, -700, 1400, 2100})
PtOf  == <<R(Coord) + Noise, R(Coord) + Noise, IF Pct(85) THEN 0 ELSE R({-1000, 1, 500, 1000})>>
Rots  == {<<1,0,0, 0,1,0, 0,0,1>>, <<0,-1,0, 1,0,0, 0,0,1>>, <<-1,0,0, 0,-1,0, 0,0,1>>, <<0,1,0, -1,0,0, 0,0,1>>,
          <<1,0,0, 0,0,-1, 0,1,0>>, <<0,0,1, 1,0,0, 0,1,0>>, <<0,1,0, 1,0,0, 0,0,-1>>, <<1,0,0, 0,1,0, 0,0,-1>>,
          <<0,1,0, 0,0,1, 1,0,0>>, <<0,0,1, 0,1,0, -1,0,0>>, <<0,0,-1, 0,1,0, 1,0,0>>, <<-1,0,0, 0,0,1, 0,1,0>>}
OpTm  == LET q == K({124}) IN IF q = {} THEN {} ELSE LET w == R(Rots) IN
         {<<"tm", R(q), w[1], w[2], w[3], R(Coord), w[4], w[5], w[6], R(Coord), w[7], w[8], w[9], R({0, 0, 1000, -2000})>>}
OpPt  == LET q == K({100, 104, 110, 126}) IN IF q = {} THEN {} ELSE LET c == R(q)
             \* often join another curve
             j == { i \in L : S.e[i].k \in Curves /\ End(S, i, 2, FALSE) # <<>> }
             p == IF j # {} /\ Pct(60) THEN End(S, R(j), 2, FALSE) ELSE PtOf
             e == IF Pct(15) THEN p ELSE IF j # {} /\ Pct(45) THEN End(S, R(j), 1, FALSE) ELSE PtOf IN
         {<<"pt", c, p[1], p[2], p[3], e[1], e[2], e[3]>>}
OpAlg == LET q == K({124}) IN IF q = {} THEN {} ELSE {<<"alg", R(q), R(q), R({-2, -1, 0, 1, 3}), R(Coord), R(Coord) + R({0, 250}), R({0, -1000}), R(Coord), R({-500, 2000}), R(Coord)>>}
OpGeo == LET d == R(1..100) IN IF d <= 42 THEN OpPt ELSE IF d <= 78 THEN OpTm ELSE IF d <= 88 THEN OpAlg ELSE {<<"res", R(LiveM), R({0, 1, 1, 500, 1200})>>}
OpExp  == {<<"export", R(LiveM), IF Pct(90) THEN R(LiveM) ELSE 0, n>>}

W == \* weights: new set app rem extras tree attr own free model cull export write geometry
    CASE Profile = "attr"  -> <<25, 12, 6, 1, 6, 3, 40, 4, 1, 0, 2, 0, 0, 1>>
      [] Profile = "own"   -> <<24, 16, 12, 1, 4, 1, 3, 24, 4, 6, 3, 2, 0, 1>>
      [] Profile = "cull"  -> <<30, 24, 16, 2, 3, 3, 9, 6, 1, 0, 5, 0, 1, 1>>
      [] Profile = "assy"  -> <<30, 22, 18, 2, 1, 1, 6, 3, 0, 0, 3, 14, 0, 1>>
      [] Profile = "chain" -> <<35, 14, 36, 0, 1, 0, 2, 10, 1, 0, 1, 0, 0, 10>>
      [] Profile = "place" -> <<25, 24, 12, 0, 1, 0, 1, 6, 1, 0, 1, 0, 0, 26>>
      [] Profile = "file"  -> <<34, 34, 26, 1, 6, 5, 14, 1, 0, 0, 0, 0, 0, 0>>
      [] OTHER             -> <<30, 24, 16, 4, 6, 4, 3, 9, 2, 1, 1, 0, 0, 3>>
RECURSIVE Cum(_)
Cum(k) == IF k = 0 THEN 0 ELSE W[k] + Cum(k - 1)
Draw(d) ==
    LET c == CHOOSE k \in 1..14 : d <= Cum(k) /\ d > Cum(k - 1) IN
    CASE c = 1 -> IF n <= NE THEN OpNew ELSE OpSet
      [] c = 2 -> OpSet [] c = 3 -> OpApp [] c = 4 -> OpRem [] c = 5 -> OpXtr [] c = 6 -> OpTree
      [] c = 7 -> OpAt [] c = 8 -> OpOwn [] c = 9 -> OpFree [] c = 10 -> OpMod [] c = 11 -> OpCull
      [] c = 14 -> OpGeo
      [] c = 12 -> IF n <= NE THEN OpExp ELSE OpSet [] OTHER -> OpWrite
Init == S = Empty(NM, NE) /\ n = 1 /\ hist = <<>>
Do(op) ==
    LET X == Apply(S, op[1], Tail(op)) IN
    /\ S' = X.S
    /\ n' = IF op[1] = "new" \/ (op[1] = "export" /\ X.S.e[op[4]].k # 0) THEN n + 1 ELSE n
    /\ hist' = Append(hist, op)
Next == /\ Len(hist) < Depth
        /\ \E d \in {R(1..Cum(14))} :
             LET q == Draw(IF Len(hist) < 4 /\ n <= NE THEN 1 ELSE d) IN
             \E op \in (IF q # {} THEN q ELSE IF n <= NE THEN OpNew ELSE OpCull) : Do(op)
Spec == Init /\ [][Next]_<<S, n, hist>>
Emit == Len(hist) = Depth => PrintT("SCRIPT " \o ToJson(hist))
Inv == OneOwner(S) /\ NoDangling(S) /\ LinkedOnce(S) /\ ChainOk(S)
=============================================================================
