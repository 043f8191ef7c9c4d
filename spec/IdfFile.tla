----------------------------- MODULE IdfFile -----------------------------
(* IDF 3.0 board (emn) and library (emp) files: the grammar as a state     *)
(* machine with one transition per line, the board such a pair of files    *)
(* describes, the operations of the IDF interface on a board, and what a   *)
(* file written from a board describes.                                    *)
(* A line is [c, x, t, bad]: c 0 data, 1 comment (text x), 2 blank; t the  *)
(* tokens; bad is 1 after an unterminated quote. A token is                *)
(* [s text, u upper case, q quoted, k kind, a, b, c]: k 1 a number equal   *)
(* to a tenths (k 3: and not in tenths), b 1e-5, c 1e-3, k 2 a number      *)
(* followed by text or out of range, k 0 other. Lengths are 1e-5 mm,       *)
(* angles 1e-3 degrees.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
MM == 0
THOU == 1
UNOWNED == 0
UNSET == 4
NOH == -100000
Layer == [ TOP |-> 0, BOTTOM |-> 1, BOTH |-> 2, INNER |-> 3, ALL |-> 4 ]
LayerNames == DOMAIN Layer
Owner == [ UNOWNED |-> 0, MCAD |-> 1, ECAD |-> 2 ]
Placement == [ UNPLACED |-> 0, PLACED |-> 1, MCAD |-> 2, ECAD |-> 3 ]
NoSec == [k |-> "", own |-> 0, th |-> 0, sd |-> 5, nm |-> "", lp |-> <<>>, cm |-> <<>>]
NoPart == [g |-> "", p |-> "", cl |-> 0, th |-> 0, u |-> MM, lp |-> <<>>, pr |-> {}, cm |-> <<>>, def |-> FALSE]
Empty == [u |-> MM, nm |-> "", bs |-> "", bd |-> "", bv |-> 0, ls |-> "", ld |-> "", lv |-> 0, src |-> "",
          bo |-> NoSec, th |-> TRUE, sec |-> <<>>, dr |-> <<>>, cp |-> <<>>, nt |-> <<>>, lib |-> <<>>, dc |-> <<>>, nc |-> <<>>, pc |-> <<>>, nref |-> 0]
\* a board object as constructed has the default thickness
Empty1 == [Empty EXCEPT !.bo.th = 160000]
NoLoop == [idx |-> -1, n |-> 0, cl |-> FALSE, pt |-> <<0, 0>>, sg |-> <<>>]
(* ------------------------------- parser -------------------------------- *)
\* v: verdict so far; any: the verdict of the file is not decided; m: what is expected; cur, prt: section and part being read
StartB(D) == [v |-> TRUE, any |-> FALSE, m |-> "h1", D |-> D, cm |-> <<>>, cur |-> NoSec, prt |-> NoPart, L |-> NoLoop, ol |-> FALSE, pl |-> <<>>, nosub |-> FALSE, u |-> MM]
StartL(D) == [StartB(D) EXCEPT !.m = "lh1"]
Bad(P) == [P EXCEPT !.v = FALSE]
Open(P) == [P EXCEPT !.any = TRUE]
Tok(ln, i) == IF i <= Len(ln.t) THEN ln.t[i] ELSE [s |-> "", u |-> "", q |-> 0, k |-> 9, a |-> 0, b |-> 0, c |-> 0]
Is(t, u) == t.k # 9 /\ t.u = u
IsNum(t) == t.k \in {1, 3}
NotNum(t) == t.k \in {0, 9}
\* a length in 1e-5 mm; only exactly representable ones are decided
Unsure(t, u) == t.k = 2 \/ (t.k = 3 /\ u = THOU)
Length(t, u) == IF u = THOU THEN t.a * 254 ELSE t.b
(* doubled area of the chord polygon in (0.01 mm)^2, for coordinates below 1 m *)
Sum(f, S) == LET RECURSIVE R(_, _) R(i, acc) == IF i > S THEN acc ELSE R(i + 1, acc + f[i]) IN R(1, 0)
Small(sg) == \A i \in DOMAIN sg : \A j \in 1..4 : sg[i][j] > -15000000 /\ sg[i][j] < 15000000
\* 1: counter-clockwise, -1: clockwise, 0: not decided
Winding(sg) ==
    IF Len(sg) = 0 THEN -1
    ELSE IF Len(sg) = 1 THEN (IF sg[1][5] = 360000 THEN 1 ELSE -1)
    ELSE IF Len(sg) = 2 \/ ~Small(sg) THEN 0
    ELSE LET x(i) == sg[i][1] \div 1000 y(i) == sg[i][2] \div 1000 X(i) == sg[i][3] \div 1000 Y(i) == sg[i][4] \div 1000
             A == Sum([i \in 1..Len(sg) |-> x(i) * Y(i) - X(i) * y(i)], Len(sg))
             B == Sum([i \in 1..Len(sg) |-> IF sg[i][5] = 0 THEN 0 ELSE ((X(i) - x(i)) * (X(i) - x(i)) + (Y(i) - y(i)) * (Y(i) - y(i))) \div 2], Len(sg))
             wide == \E i \in 1..Len(sg) : sg[i][5] > 180000 \/ sg[i][5] < -180000 IN
         IF wide \/ (A <= B + 100 /\ -A <= B + 100) THEN 0 ELSE IF A > 0 THEN 1 ELSE -1
Circle(sg) == Len(sg) = 1 /\ sg[1][5] = 360000
\* the winding of loop number i is wrong / may be wrong
Wrong(sg, i) == IF i = 0 THEN Winding(sg) = -1 ELSE Winding(sg) = 1 /\ ~Circle(sg)
Loose(sg, i) == Winding(sg) = 0
(* one point of an outline; single: sections with a single loop *)
Point(P, ln, single, u) ==
    LET L0 == P.L i == Tok(ln, 1) x == Tok(ln, 2) y == Tok(ln, 3) g == Tok(ln, 4) IN
    IF i.q = 1 \/ NotNum(i) THEN Bad(P)
    ELSE IF ~IsNum(i) \/ i.a % 10 # 0 \/ i.k = 3 THEN Open(P)
    ELSE LET n == i.a \div 10
             new == n # L0.idx
             refuse == new /\ ((L0.n > 0 /\ ~L0.cl) \/ n < 0 \/ (IF L0.idx = -1 THEN (IF single THEN n \notin {0, 1} ELSE n # 0)
                                                    ELSE single \/ n # L0.idx + 1 \/ Wrong(L0.sg, L0.idx)))
             loose == new /\ L0.idx >= 0 /\ ~single /\ Loose(L0.sg, L0.idx)
             P1 == IF ~new THEN P
                   ELSE [P EXCEPT !.L = [NoLoop EXCEPT !.idx = n], !.cur.lp = IF L0.idx = -1 THEN @ ELSE Append(@, L0.sg), !.any = @ \/ loose]
             L == P1.L IN
         IF refuse THEN (IF loose THEN Open(Bad(P)) ELSE Bad(P))
         ELSE IF x.q = 1 \/ y.q = 1 \/ g.q = 1 \/ NotNum(x) \/ NotNum(y) \/ NotNum(g) THEN Bad(P1)
         ELSE IF Unsure(x, u) \/ Unsure(y, u) \/ g.k = 2 THEN Open(P1)
         ELSE LET px == Length(x, u) py == Length(y, u) a == g.c flat == a > -10 /\ a < 10 near == a \in {-10, 10} IN
         IF near THEN Open(P1)
         ELSE IF L.n = 0 THEN (IF ~flat THEN Bad(P1) ELSE [P1 EXCEPT !.L = [L EXCEPT !.n = 1, !.pt = <<px, py>>]])
         ELSE IF L.cl THEN Bad(P1)
         ELSE LET full == (a > 359990 /\ a < 360010) \/ (a < -359990 /\ a > -360010)
                  edge == a \in {359990, 360010, -359990, -360010} \/ (a # 0 /\ flat) \/ a > 360010 \/ a < -360010
                  sg == <<L.pt[1], L.pt[2], px, py, IF full THEN 360000 ELSE a>>
                  first == IF L.sg = <<>> THEN <<>> ELSE <<L.sg[1][1], L.sg[1][2]>>
                  dx == px - first[1] dy == py - first[2]
                  hit == L.sg # <<>> /\ dx = 0 /\ dy = 0
                  grey == L.sg # <<>> /\ ~hit /\ dx > -3 /\ dx < 3 /\ dy > -3 /\ dy < 3 IN
         IF edge \/ grey THEN Open(P1)
         ELSE IF full /\ L.sg # <<>> THEN Bad(P1)
         ELSE [P1 EXCEPT !.L = [L EXCEPT !.n = @ + 1, !.pt = <<px, py>>, !.sg = Append(@, sg), !.cl = full \/ hit]]
\* the loops of a section end; what follows is the state m
EndLoops(P, m) ==
    LET L == P.L IN
    IF L.n > 0 /\ ~L.cl THEN Bad(P)
    ELSE [P EXCEPT !.L = NoLoop, !.cur.lp = IF L.idx = -1 THEN @ ELSE Append(@, L.sg), !.m = m]
SecNames == {".OTHER_OUTLINE", ".ROUTE_OUTLINE", ".PLACE_OUTLINE", ".ROUTE_KEEPOUT", ".VIA_KEEPOUT", ".PLACE_KEEPOUT", ".PLACE_REGION"}
Kind(u) == CASE u = ".OTHER_OUTLINE" -> "oth" [] u = ".ROUTE_OUTLINE" -> "rt" [] u = ".PLACE_OUTLINE" -> "pl" [] u = ".ROUTE_KEEPOUT" -> "rk"
             [] u = ".VIA_KEEPOUT" -> "vk" [] u = ".PLACE_KEEPOUT" -> "pk" [] OTHER -> "gr"
EndName(k) == CASE k = "oth" -> ".END_OTHER_OUTLINE" [] k = "rt" -> ".END_ROUTE_OUTLINE" [] k = "pl" -> ".END_PLACE_OUTLINE" [] k = "rk" -> ".END_ROUTE_KEEPOUT"
                [] k = "vk" -> ".END_VIA_KEEPOUT" [] k = "pk" -> ".END_PLACE_KEEPOUT" [] k = "gr" -> ".END_PLACE_REGION"
                [] k = "bo" -> ".END_BOARD_OUTLINE" [] k = "E" -> ".END_ELECTRICAL" [] OTHER -> ".END_MECHANICAL"
\* an outline without a legal owner is unowned
OwnerOf(t) == IF t.u \in DOMAIN Owner THEN Owner[t.u] ELSE UNOWNED
Flush(P) == [P EXCEPT !.cm = <<>>]
Close(P) ==
    IF P.cur.k = "bo" THEN Flush([P EXCEPT !.D.bo = [P.cur EXCEPT !.cm = P.cm], !.ol = TRUE, !.m = "sec"])
    ELSE IF P.cur.k \in {"E", "M"} THEN
        LET q == [P.prt EXCEPT !.lp = P.cur.lp, !.cm = P.cm] same == \E i \in DOMAIN P.D.lib : P.D.lib[i].g = q.g /\ P.D.lib[i].p = q.p
            P1 == [P EXCEPT !.D.lib = Append(@, q), !.m = "ls"] IN IF same THEN Open(P1) ELSE Flush(P1)
    ELSE LET q == [P.cur EXCEPT !.cm = P.cm] same == P.cur.k = "oth" /\ \E i \in DOMAIN P.D.sec : P.D.sec[i].k = "oth" /\ P.D.sec[i].nm = q.nm IN
        IF same THEN Bad(P) ELSE Flush([P EXCEPT !.D.sec = Append(@, q), !.m = "sec"])
Extra(P, ln, n) == IF Len(ln.t) > n THEN Open(P) ELSE P
Single(k) == k \notin {"bo", "oth"}
Body(P, ln, u) ==
    IF ln.c = 1 THEN Bad(P)
    ELSE LET t == Tok(ln, 1) pre == Len(t.u) >= 5 /\ SubSeq(t.u, 1, 5) = ".END_" IN
    IF t.q = 1 THEN Bad(P)
    ELSE IF pre THEN
        LET Q == EndLoops(P, "") whole == P.cur.k \in {"pl", "pk", "gr"}
            R == IF t.u # EndName(P.cur.k) \/ (~whole /\ Len(ln.t) > 1) THEN Bad(Q) ELSE IF Len(ln.t) > 1 THEN Open(Q) ELSE Q IN
        IF ~R.v THEN R ELSE Close(R)
    ELSE IF P.cur.k \in {"E", "M"} /\ t.u = "PROP" THEN
        LET Q == EndLoops(P, "pr") IN IF P.cur.k = "M" THEN Bad(Q) ELSE Q
    ELSE Extra(Point(P, ln, Single(P.cur.k), u), ln, 4)
Prop(P, ln) ==
    IF ln.c = 1 THEN Bad(P)
    ELSE LET t == Tok(ln, 1) IN
    IF t.q = 1 THEN Bad(P)
    ELSE IF Len(t.u) >= 5 /\ SubSeq(t.u, 1, 5) = ".END_" THEN (IF t.u = ".END_ELECTRICAL" /\ Len(ln.t) = 1 THEN Close(P) ELSE Bad(P))
    ELSE IF t.u # "PROP" \/ Len(ln.t) < 3 THEN Bad(P)
    ELSE IF \E x \in P.prt.pr : x[1] = Tok(ln, 2).s THEN Bad(P)
    ELSE Extra([P EXCEPT !.prt.pr = @ \cup {<<Tok(ln, 2).s, Tok(ln, 3).s>>}], ln, 3)
Rec2(P, ln) ==
    LET k == P.cur.k a == Tok(ln, 1) b == Tok(ln, 2) c == Tok(ln, 3) u == P.D.u
        side(t) == IF t.u \in LayerNames THEN Layer[t.u] ELSE 9
        Go(s) == [P EXCEPT !.cur = s, !.m = "lp"] IN
    IF ln.c = 1 THEN Bad(P)
    ELSE CASE k = "bo" ->
             IF a.k \in {0, 9} THEN Bad(P) ELSE IF Unsure(a, u) \/ a.q = 1 THEN Open(P)
             ELSE LET h == Length(a, u) IN Extra(Go([P.cur EXCEPT !.th = IF h = 0 THEN 160000 ELSE IF h < 0 THEN -h ELSE h]), ln, 1)
      [] k = "oth" ->
             IF Len(ln.t) < 3 \/ NotNum(b) \/ side(c) \notin {0, 1} THEN Bad(P) ELSE IF Unsure(b, u) \/ b.q = 1 \/ c.q = 1 THEN Open(P)
             ELSE Extra(Go([P.cur EXCEPT !.nm = a.s, !.th = Length(b, u), !.sd = side(c)]), ln, 3)
      [] k \in {"rt", "rk"} -> IF a.q = 1 \/ side(a) = 9 THEN Bad(P) ELSE Extra(Go([P.cur EXCEPT !.sd = side(a)]), ln, 1)
      [] k \in {"pl", "pk"} ->
             IF side(a) \notin {0, 1, 2} THEN Bad(P) ELSE IF a.q = 1 \/ b.q = 1 THEN Open(P)
             ELSE IF b.k = 9 THEN (IF k = "pk" THEN Bad(P) ELSE Go([P.cur EXCEPT !.sd = side(a), !.th = NOH]))
             ELSE IF b.k = 0 \/ (b.k \in {1, 3} /\ b.b < 0) THEN Bad(P) ELSE IF Unsure(b, u) THEN Open(P)
             ELSE Extra(Go([P.cur EXCEPT !.sd = side(a), !.th = Length(b, u)]), ln, 2)
      [] k = "gr" -> IF side(a) \notin {0, 1, 2} \/ b.k = 9 THEN Bad(P) ELSE IF a.q = 1 THEN Open(P)
             ELSE Extra(Go([P.cur EXCEPT !.sd = side(a), !.nm = b.s]), ln, 2)
      [] OTHER -> Bad(P)
Part2(P, ln) ==
    LET a == Tok(ln, 1) b == Tok(ln, 2) c == Tok(ln, 3) d == Tok(ln, 4) u == IF c.u = "MM" THEN MM ELSE THOU IN
    IF ln.c = 1 \/ Len(ln.t) < 4 \/ (a.s = "" /\ b.s = "") \/ c.u \notin {"MM", "THOU"} \/ NotNum(d) THEN Bad(P)
    ELSE IF c.q = 1 \/ d.q = 1 \/ Unsure(d, u) THEN Open(P)
    ELSE Extra([P EXCEPT !.prt = [@ EXCEPT !.g = a.s, !.p = b.s, !.u = u, !.th = Length(d, u)], !.u = u, !.m = "lp"], ln, 4)
\* components by designator
CIx(D, r) == { i \in DOMAIN D.cp : D.cp[i].ref = r }
WithComp(D, r) == IF CIx(D, r) # {} THEN D ELSE [D EXCEPT !.cp = Append(@, [ref |-> r, pl |-> UNSET, pos |-> <<>>, dr |-> <<>>, of |-> <<>>])]
AtC(D, r) == CHOOSE i \in CIx(D, r) : TRUE
HoleTypes == {"PIN", "VIA", "MTG", "TOOL"}
Refs == {"BOARD", "NOREFDES", "PANEL"}
Drill(P, ln) ==
    LET a == Tok(ln, 1) x == Tok(ln, 2) y == Tok(ln, 3) p == Tok(ln, 4) r == Tok(ln, 5) h == Tok(ln, 6) o == Tok(ln, 7) u == P.D.u IN
    IF ln.c = 1 \/ a.q = 1 THEN Bad(P)
    ELSE IF a.u = ".END_DRILLED_HOLES" THEN Extra(Flush([P EXCEPT !.m = "sec", !.D.dc = @ \o P.cm]), ln, 1)
    ELSE IF NotNum(a) \/ NotNum(x) \/ NotNum(y) \/ x.q = 1 \/ y.q = 1 \/ Len(ln.t) < 7 \/ p.u \notin {"PTH", "NPTH"} \/ o.u \notin DOMAIN Owner \/ r.u = "PANEL" THEN Bad(P)
    ELSE IF IsNum(a) /\ a.b < 50 THEN (IF a.b <= 0 THEN Bad(P) ELSE Open(P))
    ELSE IF Unsure(a, u) \/ Unsure(x, u) \/ Unsure(y, u) \/ p.q = 1 \/ o.q = 1 \/ r.s = "" \/ h.s = "" THEN Open(P)
    ELSE LET ref == IF r.u \in Refs THEN r.u ELSE r.s
             d == <<Length(a, u), Length(x, u), Length(y, u), IF p.u = "PTH" THEN 0 ELSE 1, ref, IF h.u \in HoleTypes THEN h.u ELSE h.s, Owner[o.u]>> IN
         IF ref = "BOARD" THEN Extra([P EXCEPT !.D.dr = Append(@, d)], ln, 7)
         ELSE LET D1 == WithComp(P.D, ref) i == AtC(D1, ref) IN Extra([P EXCEPT !.D = [D1 EXCEPT !.cp[i].dr = Append(@, d)]], ln, 7)
Note(P, ln) ==
    LET a == Tok(ln, 1) u == P.D.u IN
    IF ln.c = 1 \/ a.q = 1 THEN Bad(P)
    ELSE IF a.u = ".END_NOTES" THEN Extra(Flush([P EXCEPT !.m = "sec", !.D.nc = @ \o P.cm]), ln, 1)
    ELSE IF Len(ln.t) < 5 \/ \E i \in 1..4 : NotNum(Tok(ln, i)) \/ Tok(ln, i).q = 1 THEN Bad(P)
    ELSE IF \E i \in 1..4 : Unsure(Tok(ln, i), u) THEN Open(P)
    ELSE Extra([P EXCEPT !.D.nt = Append(@, <<Length(a, u), Length(Tok(ln, 2), u), Length(Tok(ln, 3), u), Length(Tok(ln, 4), u), Tok(ln, 5).s>>)], ln, 5)
Place1(P, ln) ==
    LET a == Tok(ln, 1) b == Tok(ln, 2) r == Tok(ln, 3) IN
    IF ln.c = 1 THEN Bad(P)
    ELSE IF a.u = ".END_PLACEMENT" /\ a.q = 0 THEN Extra(Flush([P EXCEPT !.m = "end", !.D.pc = @ \o P.cm]), ln, 1)
    ELSE IF Len(ln.t) < 3 \/ r.u \in {"BOARD", "PANEL"} \/ r.s = "" THEN Bad(P)
    ELSE IF a.s = "" /\ b.s = "" THEN Open(P)
    ELSE IF r.u = "NOREFDES" THEN Extra([P EXCEPT !.pl = <<a.s, b.s, "NOREFDESn" \o ToString(P.D.nref)>>, !.D.nref = @ + 1, !.m = "pl2"], ln, 3)
    ELSE Extra([P EXCEPT !.pl = <<a.s, b.s, r.s>>, !.m = "pl2"], ln, 3)
InLib(D, g, p) == \E i \in DOMAIN D.lib : D.lib[i].g = g /\ D.lib[i].p = p
Place2(P, ln) ==
    LET t(i) == Tok(ln, i) u == P.D.u sd == t(5) pl == t(6) g == P.pl[1] p == P.pl[2] r == P.pl[3] IN
    IF ln.c = 1 \/ t(1).q = 1 \/ Len(ln.t) < 6 \/ (\E i \in 1..4 : NotNum(t(i))) \/ sd.u \notin {"TOP", "BOTTOM"} \/ pl.u \notin DOMAIN Placement THEN Bad(P)
    ELSE IF (\E i \in 1..3 : Unsure(t(i), u)) \/ t(4).k = 2 \/ \E i \in 2..6 : t(i).q = 1 THEN Open(P)
    ELSE LET x == Length(t(1), u) y == Length(t(2), u) z == Length(t(3), u) a == t(4).c s == Layer[sd.u] w == Placement[pl.u]
             known == InLib(P.D, g, p)
             D0 == IF known \/ P.nosub THEN P.D ELSE [P.D EXCEPT !.lib = Append(@, [NoPart EXCEPT !.g = g, !.p = p, !.def = TRUE])]
             D1 == WithComp(D0, r) i == AtC(D1, r) c == D1.cp[i]
             fresh == c.pos = <<>>
             c1 == IF fresh THEN [c EXCEPT !.pos = <<x, y, a, s>>, !.pl = w] ELSE c
             of == <<IF known \/ ~P.nosub THEN g ELSE "", IF known \/ ~P.nosub THEN p ELSE "", x - c1.pos[1], y - c1.pos[2], z, a - c1.pos[3]>> IN
         IF c1.pos[4] # s \/ c1.pl # w THEN Bad(P)
         ELSE Extra([P EXCEPT !.D = [D1 EXCEPT !.cp[i] = [c1 EXCEPT !.of = Append(@, of)]], !.m = "pl1"], ln, 6)
Header2(P, ln, lib) ==
    LET a == Tok(ln, 1) v == Tok(ln, 2) s == Tok(ln, 3) d == Tok(ln, 4) f == Tok(ln, 5) IN
    IF ln.c = 1 \/ Len(ln.t) < 5 \/ a.q = 1 \/ v.q = 1 \/ f.q = 1 \/ a.u # (IF lib THEN "LIBRARY_FILE" ELSE "BOARD_FILE") THEN Bad(P)
    ELSE IF v.s \in {"2.0", "2.", "2"} THEN Open(P)
    ELSE IF v.s \notin {"3.0", "3.", "3"} THEN Bad(P)
    ELSE LET n == IF NotNum(f) THEN 1 ELSE f.a \div 10
             Q == IF lib THEN [P EXCEPT !.D.ls = s.s, !.D.ld = d.s, !.D.lv = n, !.m = "lh3"] ELSE [P EXCEPT !.D.bs = s.s, !.D.bd = d.s, !.D.bv = n, !.m = "h3"] IN
         IF f.k \in {2, 3} \/ (f.k = 1 /\ (f.a % 10 # 0 \/ f.a < 0)) THEN Open(Q) ELSE Extra(Q, ln, 5)
\* a line after an unterminated quote is not decided, except where nothing before the quote is accepted
Line(P, ln) ==
    IF ~P.v \/ P.any \/ ln.c = 2 THEN P
    ELSE IF ln.c = 0 /\ ln.bad = 1 THEN Open(P)
    ELSE LET a == Tok(ln, 1) one == Len(ln.t) = 1 /\ a.q = 0 IN
    CASE P.m = "h1" -> IF ln.c = 0 /\ one /\ a.u = ".HEADER" THEN [P EXCEPT !.m = "h2"] ELSE Bad(P)
      [] P.m = "h2" -> Header2(P, ln, FALSE)
      [] P.m = "h3" -> LET b == Tok(ln, 2) IN
            IF ln.c = 1 \/ Len(ln.t) < 2 \/ b.q = 1 \/ b.u \notin {"MM", "THOU"} THEN Bad(P)
            ELSE Extra([P EXCEPT !.D.nm = a.s, !.D.u = IF b.u = "MM" THEN MM ELSE THOU, !.m = "h4"], ln, 2)
      [] P.m = "h4" -> IF ln.c = 0 /\ one /\ a.u = ".END_HEADER" THEN [P EXCEPT !.m = "sec"] ELSE Bad(P)
      [] P.m = "sec" ->
            IF ln.c = 1 THEN [P EXCEPT !.cm = IF ln.x = "" THEN @ ELSE Append(@, ln.x)]
            ELSE IF a.q = 1 THEN Bad(P)
            ELSE IF a.u = ".BOARD_OUTLINE" THEN (IF P.ol THEN Bad(P) ELSE Extra([P EXCEPT !.cur = [NoSec EXCEPT !.k = "bo", !.own = OwnerOf(Tok(ln, 2))], !.m = "r2"], ln, 2))
            ELSE IF ~P.ol THEN Bad(P)
            ELSE IF a.u \in SecNames THEN
                 LET k == Kind(a.u) IN Extra([P EXCEPT !.cur = [NoSec EXCEPT !.k = k, !.own = OwnerOf(Tok(ln, 2))], !.m = IF k = "vk" THEN "lp" ELSE "r2"], ln, 2)
            ELSE IF a.u = ".DRILLED_HOLES" THEN Extra([P EXCEPT !.m = "dr"], ln, 1)
            ELSE IF a.u = ".NOTES" THEN Extra([P EXCEPT !.m = "nt"], ln, 1)
            ELSE IF a.u = ".PLACEMENT" THEN Extra([P EXCEPT !.m = "pl1"], ln, 1)
            ELSE Bad(P)
      [] P.m = "r2" -> Rec2(P, ln)
      [] P.m = "lp" -> Body(P, ln, IF P.cur.k \in {"E", "M"} THEN P.u ELSE P.D.u)
      [] P.m = "pr" -> Prop(P, ln)
      [] P.m = "dr" -> Drill(P, ln)
      [] P.m = "nt" -> Note(P, ln)
      [] P.m = "pl1" -> Place1(P, ln)
      [] P.m = "pl2" -> Place2(P, ln)
      [] P.m = "end" -> IF ln.c = 1 THEN (IF ln.x = "" THEN Open(P) ELSE P) ELSE Bad(P)
      [] P.m = "lh1" -> IF ln.c = 0 /\ one /\ a.u = ".HEADER" THEN [P EXCEPT !.m = "lh2"] ELSE Bad(P)
      [] P.m = "lh2" -> Header2(P, ln, TRUE)
      [] P.m = "lh3" -> IF ln.c = 0 /\ one /\ a.u = ".END_HEADER" THEN [P EXCEPT !.m = "ls"] ELSE Bad(P)
      [] P.m = "ls" -> IF ln.c = 1 THEN [P EXCEPT !.cm = IF ln.x = "" THEN @ ELSE Append(@, ln.x)]
            ELSE IF a.q = 1 \/ a.u \notin {".ELECTRICAL", ".MECHANICAL"} THEN Bad(P)
            ELSE LET e == a.u = ".ELECTRICAL" IN
                 Extra([P EXCEPT !.cur = [NoSec EXCEPT !.k = IF e THEN "E" ELSE "M"], !.prt = [NoPart EXCEPT !.cl = IF e THEN 0 ELSE 1], !.m = "l2"], ln, 1)
      [] P.m = "l2" -> Part2(P, ln)
      [] OTHER -> Bad(P)
\* a line PROP starts the properties of a part: it is itself the first of them
Line2(P, ln) == LET Q == Line(P, ln) IN IF P.m = "lp" /\ Q.m = "pr" /\ Q.v /\ ~Q.any THEN Prop(Q, ln) ELSE Q
LibDone(P) == IF P.any \/ ~P.v THEN P ELSE IF P.m # "ls" THEN Bad(P) ELSE P
\* the board file follows the library
ToBoard(P, nosub) == [StartB(P.D) EXCEPT !.v = P.v, !.any = P.any, !.nosub = nosub]
BoardDone(P) == IF P.any \/ ~P.v THEN P ELSE IF ~P.ol \/ P.m \notin {"sec", "end"} THEN Bad(P) ELSE P
(* ------------------------- what is written ----------------------------- *)
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
SegNear(p, q, tol) == (\A i \in 1..4 : Near(p[i], q[i], tol)) /\ Near(p[5], q[5], 1)
LoopNear(p, q, tol) == Len(p) = Len(q) /\ \A i \in DOMAIN p : SegNear(p[i], q[i], tol)
Rev(s) == <<s[3], s[4], s[1], s[2], IF s[5] = 360000 THEN s[5] ELSE -s[5]>>
\* a loop of the wrong winding is written in reverse order
Reversed(p) == [i \in DOMAIN p |-> IF i = 1 THEN Rev(p[1]) ELSE Rev(p[Len(p) + 2 - i])]
LoopWritten(p, q, i, single, tol) ==
    IF single \/ Circle(p) THEN LoopNear(p, q, tol)
    ELSE IF Winding(p) = 0 THEN LoopNear(p, q, tol) \/ LoopNear(Reversed(p), q, tol)
    ELSE IF Wrong(p, i) THEN LoopNear(Reversed(p), q, tol) ELSE LoopNear(p, q, tol)
LoopsWritten(p, q, single, tol) == Len(p) = Len(q) /\ \A i \in DOMAIN p : LoopWritten(p[i], q[i], i - 1, single, tol)
SecWritten(a, b, tol) == a.k = b.k /\ a.own = b.own /\ a.sd = b.sd /\ a.nm = b.nm /\ a.cm = b.cm /\ Near(a.th, b.th, tol) /\ LoopsWritten(a.lp, b.lp, Single(a.k), tol)
\* the same, in any order (maps)
SameSet(A, B, R(_, _)) == Len(A) = Len(B) /\ \A i \in DOMAIN A : \E j \in DOMAIN B : R(A[i], B[j])
SameSeq(A, B, R(_, _)) == Len(A) = Len(B) /\ \A i \in DOMAIN A : R(A[i], B[i])
DrillWritten(a, b, dtol, tol) == Near(a[1], b[1], dtol) /\ Near(a[2], b[2], tol) /\ Near(a[3], b[3], tol) /\ SubSeq(a, 4, 7) = SubSeq(b, 4, 7)
Used(S, q) == \E i \in DOMAIN S.cp : \E j \in DOMAIN S.cp[i].of : S.cp[i].of[j][1] = q.g /\ S.cp[i].of[j][2] = q.p
Real(of) == SelectSeq(of, LAMBDA x : x[1] # "" \/ x[2] # "")
Fails(S) == \E i \in DOMAIN S.cp : S.cp[i].pos = <<>> /\ Real(S.cp[i].of) # <<>>
\* differences between the board and the one described by the files written from it
Written(S, T, u, force) ==
    LET tol == IF u = THOU THEN 128 ELSE 1
        dtol == IF u = THOU THEN 128 ELSE 51
        ptol == IF u = THOU THEN 256 ELSE 2
        Of(k, D) == SelectSeq(D.sec, LAMBDA x : x.k = k /\ x.lp # <<>>)
        SW(a, b) == SecWritten(a, b, tol)
        DW(a, b) == DrillWritten(a, b, dtol, tol)
        NW(a, b) == (\A i \in 1..4 : Near(a[i], b[i], tol)) /\ a[5] = b[5]
        PW(a, b) == LET pu == IF force THEN u ELSE a.u pt == IF pu = THOU THEN 128 ELSE 1 IN
                    a.g = b.g /\ a.p = b.p /\ b.u = pu /\ (a.def \/ (a.cl = b.cl /\ a.pr = b.pr /\ a.cm = b.cm /\ Near(a.th, b.th, pt) /\ LoopsWritten(a.lp, b.lp, TRUE, pt)))
        CW(a, b) == LET f == Real(a.of) IN
                    /\ a.ref = b.ref /\ SameSeq(a.dr, b.dr, DW) /\ Len(f) = Len(b.of)
                    /\ IF f = <<>> THEN b.pos = <<>> ELSE
                       /\ b.pl = (IF a.pl = UNSET THEN 1 ELSE a.pl) /\ b.pos[4] = a.pos[4]
                       /\ Near(b.pos[1], a.pos[1] + f[1][3], tol) /\ Near(b.pos[2], a.pos[2] + f[1][4], tol) /\ Near(b.pos[3], a.pos[3] + f[1][6], 2)
                       /\ \A i \in DOMAIN f : /\ f[i][1] = b.of[i][1] /\ f[i][2] = b.of[i][2] /\ Near(b.of[i][5], f[i][5], dtol) /\ Near(b.of[i][6], f[i][6] - f[1][6], 3)
                                              /\ Near(b.of[i][3], f[i][3] - f[1][3], ptol) /\ Near(b.of[i][4], f[i][4] - f[1][4], ptol)
        kept == SelectSeq(S.cp, LAMBDA c : c.dr # <<>> \/ Real(c.of) # <<>>)
        placed == \E i \in DOMAIN S.cp : S.cp[i].of # <<>>
        parts == SelectSeq(S.lib, LAMBDA q : Used(S, q)) IN
    (IF T.u # u \/ T.nm # (IF S.nm = "" THEN "BOARD WITH NO NAME" ELSE S.nm) \/ T.bs # "Created by " \o (IF S.src = "" THEN "KiCad-IDF Framework" ELSE S.src)
        \/ T.ls # T.bs \/ T.bv # S.bv + 1 \/ T.lv # S.lv + 1 THEN {"header"} ELSE {})
    \cup (IF ~(S.bo.own = T.bo.own /\ S.bo.cm = T.bo.cm /\ Near(S.bo.th, T.bo.th, tol) /\ LoopsWritten(S.bo.lp, T.bo.lp, FALSE, tol)) THEN {"board outline"} ELSE {})
    \cup (IF \E k \in {"oth"} : ~SameSet(Of(k, S), Of(k, T), SW) THEN {"other outlines"} ELSE {})
    \cup (IF \E k \in {"rt", "pl", "rk", "vk", "pk"} : ~SameSeq(Of(k, S), Of(k, T), SW) THEN {"outlines"} ELSE {})
    \cup (IF ~SameSet(Of("gr", S), Of("gr", T), SW) \/ ~SameSet(Of("gr", T), Of("gr", S), LAMBDA a, b : SW(b, a)) THEN {"groups"} ELSE {})
    \cup (IF ~SameSeq(S.dr, T.dr, DW) \/ S.dc # T.dc THEN {"holes"} ELSE {})
    \cup (IF ~SameSeq(S.nt, T.nt, NW) \/ (S.nt # <<>> /\ S.nc # T.nc) THEN {"notes"} ELSE {})
    \cup (IF ~SameSet(kept, T.cp, CW) \/ (placed /\ S.pc # T.pc) THEN {"components"} ELSE {})
    \cup (IF ~SameSet(parts, T.lib, PW) THEN {"parts"} ELSE {})
=============================================================================
