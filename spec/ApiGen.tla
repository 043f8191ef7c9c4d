----------------------------- MODULE ApiGen -----------------------------
(* Random behaviours of the API layer for replay: operations through the   *)
(* handles mixed with the graph operations of EntityGen.  A takeover (an   *)
(* outline accepting a segment) is assumed to succeed; what is generated   *)
(* afterwards is legal in either case.                                     *)
EXTENDS EntityGen, Handles
VARIABLES H, O, no
NH == 8
NO == 60
Hk(ks) == { h \in 1..NH : H[h].k \in ks }
FreeH == Hk({""})
Seg == { i \in 1..NO : O[i].k = "seg" }
Out == { i \in 1..NO : O[i].k \in OutK }
Loose(q) == { i \in q : O[i].o = 0 }
Bound(i, ks) == { h \in Hk(ks) : H[h].b = i }
\* handles whose object no outline owns
LooseH(ks) == { h \in Hk(ks) : H[h].b = 0 \/ O[H[h].b].o = 0 }
ArgH(ks) == LET q == Hk(ks) v == { h \in q : H[h].b # 0 } IN IF v # {} /\ Pct(85) THEN R(v) ELSE Pick(q)
\* an operand: <<raw, handle>>
Arg(q) == IF Pct(50) /\ Hk({"ent"}) # {} THEN
              LET v == { h \in Hk({"ent"}) : H[h].b \in q } IN <<0, IF v # {} /\ Pct(80) THEN R(v) ELSE R(Hk({"ent"}))>>
          ELSE <<Child(q), 0>>
Tys == <<100, 102, 102, 104, 110, 110, 120, 122, 124, 126, 128, 142, 142, 144, 144, 308, 308, 314, 406, 408>>
Valid(ks) == { h \in Hk(ks) : H[h].b # 0 }
Id == n <= NE
GenNew == IF FreeH = {} \/ ~Id THEN {} ELSE
    LET h == R(FreeH) d == R(1..100) mh == Pick(Hk({"model"})) IN
    {<<"hE", h, Tys[R(1..Len(Tys))], IF Pct(80) THEN Pick(LiveM) ELSE 0, IF Pct(85) THEN 1 ELSE 0, n, IF d <= 40 THEN mh ELSE 0>>}
GenBind == LET h == Pick(Hk({"ent"})) d == R(1..100) IN
    IF h = 0 THEN {} ELSE
    IF d <= 18 THEN (IF Id THEN {<<"hN", h, n>>} ELSE {})
    ELSE IF d <= 45 THEN {<<"hA", h, IF Pct(75) THEN Pick(K({H[h].t})) ELSE Pick(L)>>}
    ELSE IF d <= 60 THEN {<<"hD", h>>} ELSE IF d <= 75 THEN {<<"hX", h>>}
    ELSE IF d <= 87 THEN {<<"hK", h>>}
    ELSE {<<"hP", h, IF Pct(80) THEN Pick(LiveM) ELSE 0, IF Pct(40) THEN Pick(Hk({"model"})) ELSE 0>>}
GenLink ==
    LET q == Hk({"ent"}) IN IF q = {} THEN {} ELSE
    LET d == R(1..100)
        ps == { h \in q : H[h].t \in {120, 122, 142, 144, 408} }
        la == { h \in q : H[h].t \in {102, 144, 308} }
        lv == { h \in la : H[h].b # 0 }
        pv == { h \in ps : H[h].b # 0 }
        any == R(q) IN
    IF d <= 35 /\ ps # {} THEN LET h == IF pv # {} THEN R(pv) ELSE R(ps) i == R(Slots(H[h].t)) g == Arg(IF H[h].b = 0 THEN {} ELSE Good(H[h].b, i)) IN {<<"hS", h, i, g[1], g[2]>>}
    ELSE IF d <= 45 THEN LET i == R({8, 9}) g == Arg(IF i = 8 THEN K({124}) ELSE K({314})) IN {<<"hS", any, i, g[1], g[2]>>}
    ELSE IF d <= 75 /\ la # {} THEN LET h == IF lv # {} THEN R(lv) ELSE R(la) g == Arg(IF H[h].b = 0 THEN {} ELSE GoodL(H[h].b)) IN {<<"hC", h, g[1], g[2]>>}
    ELSE IF d <= 85 /\ la \cap Hk({"ent"}) # {} THEN
        LET z == { x \in la : H[x].t # 102 } IN IF z = {} THEN {} ELSE
        LET h == R(z) l == IF H[h].b = 0 THEN {} ELSE Range(S.e[H[h].b].l) g == Arg(l) IN {<<"hR", h, g[1], g[2]>>}
    ELSE IF d <= 95 THEN LET g == Arg(K({406})) IN {<<"hO", any, g[1], g[2]>>}
    ELSE LET g == Arg(IF H[any].b = 0 THEN {} ELSE Range(S.e[H[any].b].e)) IN {<<"hQ", any, g[1], g[2]>>}
GenAttr == LET q == Hk({"ent"}) IN IF q = {} THEN {} ELSE LET i == R(1..10) IN {<<"hT", R(q), i, R(AttrVals(i))>>}
GenLook == LET q == Hk({"ent", "model", "seg", "out", "pcb"}) IN IF q = {} THEN {} ELSE
    LET bad == { h \in q : H[h].b = 0 } w == { h \in q : H[h].k \in {"ent", "pcb"} /\ H[h].b # 0 } IN
    IF bad # {} /\ Pct(35) THEN {<<"hV", R(bad), Pick(L)>>}
    ELSE IF w # {} /\ Pct(50) THEN {<<"hW", R(w), R(0..20)>>}
    ELSE {<<"hG", R(q), R(0..20)>>}
GenModel ==
    LET d == R(1..100) q == Hk({"model"}) dead == { m \in 1..NM : S.m[m] = <<-1>> } IN
    IF q = {} \/ (d <= 8 /\ FreeH # {} /\ dead # {}) THEN
        (IF dead = {} THEN (IF NM > 1 THEN {<<"Mx", R(1..NM)>>} ELSE {}) ELSE IF FreeH = {} THEN {} ELSE {<<"mM", R(FreeH), R(dead)>>})
    ELSE LET h == ArgH({"model"}) IN
    IF d <= 40 THEN LET a == R(1..Len(Tys)) s == IF Pct(60) THEN Pick(FreeH) ELSE Pick(Hk({"ent"})) IN
                    IF ~Id \/ s = 0 THEN {} ELSE {<<"mApi", h, IF Pct(90) THEN Tys[a] ELSE R({154, 164, 180, 110}), s, n>>}
    ELSE IF d <= 48 THEN (IF Id THEN {<<"mIge", h, Tys[R(1..Len(Tys))], n>>} ELSE {})
    ELSE IF d <= 60 THEN LET g == Arg(L) IN {<<"mAdd", h, g[1], g[2]>>}
    ELSE IF d <= 70 THEN LET g == Arg(IF H[h].b = 0 THEN L ELSE Range(S.m[H[h].b])) IN {<<"mDel", h, g[1], g[2]>>}
    ELSE IF d <= 78 THEN LET g == Arg(IF H[h].b = 0 THEN L ELSE Range(S.m[H[h].b])) IN {<<"mUnl", h, g[1], g[2]>>}
    ELSE IF d <= 82 THEN {<<"mClr", h>>} ELSE IF d <= 86 THEN {<<"mCull", h, IF Pct(20) THEN 1 ELSE 0>>}
    ELSE IF d > 86 /\ d <= 95 /\ Cardinality(LiveM) < 2 THEN {}
    ELSE IF d <= 91 THEN {<<"Mx", IF H[h].b # 0 THEN H[h].b ELSE R(LiveM)>>}
    ELSE IF d <= 95 THEN {<<"hK", h>>}
    ELSE IF Id THEN {<<"mExp", h, Pick(q), n>>} ELSE {}
Oid == no <= NO
GenSeg ==
    LET d == R(1..100) q == Hk({"seg"}) w == LooseH({"seg"}) IN
    IF (q = {} \/ d <= 8) /\ FreeH # {} THEN {<<"sC", R(FreeH)>>}
    ELSE IF w = {} THEN {} ELSE LET h == R(w) IN
    IF d <= 20 THEN (IF Oid THEN {<<"sN", h, no>>} ELSE {})
    ELSE IF d <= 55 THEN (IF Oid THEN {<<"sP", h, IF Pct(70) THEN R(0..15) ELSE R(100..102), no>>} ELSE {})
    ELSE IF d <= 64 THEN {<<"sA", R(q), Pick(Seg)>>}
    ELSE IF d <= 72 THEN {<<"sD", R(q)>>} ELSE IF d <= 80 THEN {<<"sX", h>>}
    ELSE IF d <= 86 THEN {<<"hK", h>>}
    ELSE IF d <= 94 THEN (IF Oid THEN {<<"sR", no>>} ELSE {})
    ELSE IF Loose(Seg) = {} THEN {} ELSE {<<"sZ", R(Loose(Seg))>>}
OwnSeg(b) == { i \in Seg : O[i].o = b }
GenOut ==
    LET d == R(1..100) q == Hk(OutK) w == LooseH(OutK) IN
    IF (q = {} \/ d <= 8) /\ FreeH # {} THEN {<<"oC", R(FreeH), R({4, 5})>>}
    ELSE IF w = {} THEN {} ELSE LET h == R(w) v == { x \in w : H[x].b # 0 } IN
    IF d <= 18 THEN (IF Oid THEN {<<"oN", h, no>>} ELSE {})
    ELSE IF d <= 26 THEN {<<"oA", R(q), Pick(Out)>>}
    ELSE IF d <= 31 THEN {<<"oD", R(q)>>} ELSE IF d <= 38 THEN {<<"oX", h>>}
    ELSE IF d <= 43 THEN {<<"hK", h>>}
    ELSE IF d <= 47 THEN (IF Oid THEN {<<"oR", no, R({4, 5})>>} ELSE {})
    ELSE IF d <= 50 THEN (IF Loose(Out) = {} THEN {} ELSE {<<"oZ", R(Loose(Out))>>})
    ELSE IF d <= 75 THEN \* a segment, by handle or directly
        LET t == IF v # {} THEN R(v) ELSE h
            hs == { x \in LooseH({"seg"}) : H[x].b # 0 } IN
        IF hs # {} /\ Pct(60) THEN {<<"oS", t, R(hs), 0>>} ELSE IF Loose(Seg) # {} THEN {<<"oS", t, 0, R(Loose(Seg))>>} ELSE {}
    ELSE IF v = {} THEN {} ELSE LET t == R(v) b == H[t].b
            hs == { x \in LooseH({"seg"}) : H[x].b # 0 }
            ho == { x \in v : H[x].b # b } ro == Loose(Out) \ {b} IN
        IF d <= 84 THEN (IF ho # {} /\ Pct(60) THEN {<<"oU", t, R(ho), 0>>} ELSE IF ro # {} THEN {<<"oU", t, 0, R(ro)>>} ELSE {})
        ELSE IF d <= 92 THEN (IF hs # {} THEN {<<"oT", t, R(hs), 0>>} ELSE {})
        ELSE IF \E i \in OwnSeg(b) : Bound(i, {"seg"}) # {} THEN {}
        ELSE IF Pct(50) THEN (LET z == { x \in hs : Cardinality(Bound(H[x].b, {"seg"})) = 1 } IN IF z # {} THEN {<<"oG", t, R(z), 0, R({0, 1})>>} ELSE {})
        ELSE LET z == { x \in ho : Cardinality(Bound(H[x].b, OutK)) = 1 /\ \A i \in OwnSeg(H[x].b) : Bound(i, {"seg"}) = {} } IN
             IF z # {} THEN {<<"oG", t, R(z), 0, R({0, 1})>>} ELSE {}
\* a square or circle made in one go: the walk finds closed outlines often enough
AW == CASE Profile = "hobj" -> <<1, 1, 0, 0, 10, 1, 42, 45, 2>>
        [] Profile = "hmod" -> <<16, 20, 14, 4, 12, 26, 0, 0, 14>>
        [] OTHER            -> <<18, 20, 26, 8, 14, 8, 0, 0, 8>>
RECURSIVE ACum(_)
ACum(k) == IF k = 0 THEN 0 ELSE AW[k] + ACum(k - 1)
ADraw(d) == LET c == CHOOSE k \in 1..9 : d <= ACum(k) /\ d > ACum(k - 1) IN
    CASE c = 1 -> GenNew [] c = 2 -> GenBind [] c = 3 -> GenLink [] c = 4 -> GenAttr [] c = 5 -> GenLook
      [] c = 6 -> GenModel [] c = 7 -> GenSeg [] c = 8 -> GenOut
      [] OTHER -> Draw(R(1..Cum(14)))
NewIds == {"new", "hE", "hN", "mApi", "mIge", "mExp", "export"}
NewObj == {"sN", "oN", "sP", "sR", "oR"}
ADo(op) ==
    LET a == Tail(op)
        X == IF op[1] \in Takes THEN ApplyTake(S, H, O, op[1], a, 1) ELSE ApplyH(S, H, O, op[1], a) IN
    /\ S' = X.S /\ H' = X.H /\ O' = X.O
    /\ n' = IF op[1] \in NewIds THEN n + 1 ELSE n
    /\ no' = IF op[1] \in NewObj THEN no + 1 ELSE no
    /\ hist' = Append(hist, op)
AInit == Init /\ H = [h \in 1..NH |-> NoH] /\ O = [i \in 1..NO |-> NoO] /\ no = 1
ANext == /\ Len(hist) < Depth
         /\ \E d \in {R(1..ACum(9))} : \E q \in {ADraw(d)} :
              \E op \in (IF q # {} THEN q ELSE IF FreeH # {} /\ Id /\ LiveM # {} /\ Profile # "hobj" THEN GenNew ELSE IF LiveM = {} THEN {<<"M", 1>>} ELSE IF Profile = "hobj" THEN GenLook \cup {<<"M0">>} ELSE OpCull) :
                 IF op[1] = "M0" THEN UNCHANGED <<S, n, H, O, no>> /\ hist' = Append(hist, <<"nop">>) ELSE ADo(op)
ASpec == AInit /\ [][ANext]_<<S, n, hist, H, O, no>>
AInv == HandleOk(S, H, O) /\ OneOwner(S) /\ NoDangling(S)
=============================================================================
