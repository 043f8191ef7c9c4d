------------------------------ MODULE ConvGen ------------------------------
(* Generates IDF boards to convert: an outline with cutouts and holes in    *)
(* disjoint cells (SolidGen), parts, placements of them on either side, in  *)
(* steps of 15 degrees, and other outlines. Written out by tools/solid.py.  *)
EXTENDS SolidGen
VARIABLES np, no, edge, all
Shape(o) == { IF m = 1 THEN Mirror(o) ELSE o : m \in {R(0..1)} }
(* points of the outline (not near one another) where holes may be drilled through it *)
Edge(n) ==
    CASE n = 1 -> {<<0, 0>>, <<3, 0>>, <<6, 0>>, <<10, 0>>, <<14, 0>>, <<17, 0>>, <<20, 4>>, <<20, 8>>, <<20, 15>>, <<12, 15>>, <<5, 15>>, <<0, 10>>, <<0, 5>>}
      [] n = 2 -> {<<3, 0>>, <<10, 0>>, <<20, 0>>, <<20, 3>>, <<14, 6>>, <<8, 6>>, <<8, 10>>, <<4, 15>>, <<0, 8>>}
      [] n = 3 -> {<<7, 0>>, <<13, 0>>, <<20, 7>>, <<10, 15>>, <<0, 5>>, <<0, 9>>}
      [] n = 4 -> {<<8, 0>>, <<12, 0>>, <<20, 5>>, <<18, 9>>, <<19, 2>>, <<9, 10>>, <<0, 5>>, <<1, 8>>}
      [] n = 5 -> {<<16, 8>>, <<8, 16>>, <<0, 8>>, <<8, 0>>}
      [] n = 9 -> {<<4, 0>>, <<12, 0>>, <<20, 7>>, <<18, 15>>, <<14, 12>>, <<10, 10>>, <<6, 12>>, <<2, 15>>, <<0, 4>>}
      [] n = 10 -> {<<5, 0>>, <<10, 0>>, <<16, 6>>, <<10, 15>>, <<4, 6>>}
      [] n = 12 -> {<<8, 0>>, <<12, 0>>, <<20, 7>>, <<15, 14>>, <<9, 14>>, <<0, 7>>}
      [] n = 16 -> {<<4, 0>>, <<15, 0>>, <<20, 2>>, <<17, 5>>, <<15, 9>>, <<17, 13>>, <<11, 18>>, <<9, 9>>, <<20, 16>>}
      [] OTHER -> {}
(* board outlines run counterclockwise, cutouts clockwise; shapes of two segments are left to other checks *)
ConvBoard == \E n \in {R({1, 2, 3, 4, 5, 9, 10, 11, 12, 13, 16})} : \E m \in {R(0..1)} : LET b == IF m = 1 THEN Mirror(Board(n)) ELSE Board(n) IN \E k \in {R(0..(Len(b) - 1))} :
    /\ brd' = n /\ free' = (IF n \in {11, 13} THEN {} ELSE IF m = 1 THEN Swap(Cells(n)) ELSE Cells(n)) /\ hist' = Append(hist, <<"brd">> \o Enc(Turn(b, k))) /\ edge' = (IF m = 1 THEN Swap(Edge(n)) ELSE Edge(n)) /\ all' = free' /\ UNCHANGED <<np, no>>
ConvCut == free # {} /\ \E p \in {R(free)} : \E n \in {R({1, 2, 6, 8, 9})} : LET c == Move(Cut(n), p) IN \E k \in {R(0..(Len(c) - 1))} :
    /\ free' = free \ {p} /\ hist' = Append(hist, <<"cut">> \o Enc(Turn(IF Len(c) = 1 THEN c ELSE Rev(c), k))) /\ UNCHANGED <<brd, np, no, edge, all>>
ConvHole == free # {} /\ \E p \in {R(free)} : \E x \in {R({<<1, 1>>, <<2, 1>>, <<2, 2>>, <<1, 2>>})} : \E o \in {R(0..4)} :
    /\ free' = free \ {p} /\ hist' = Append(hist, <<"hole", p[1] + x[1], p[2] + x[2], R(1..19), o>>) /\ UNCHANGED <<brd, np, no, edge, all>>
NewPart == np < 3 /\ \E n \in {R(1..NC)} : \E p \in {R((-4..2) \X (-4..2))} : \E o \in Vary(Move(Cut(n), p)) : \E h \in {R({0, 3, 10, 25, 40})} : \E e \in {R(1..10)} :
    /\ np' = np + 1 /\ hist' = Append(hist, <<"part", np + 1, h>> \o (IF e = 1 THEN <<0>> ELSE Enc(o))) /\ UNCHANGED <<brd, free, no, edge, all>>
(* part 0 is not in the library *)
Place == \E q \in {R(IF R(1..9) = 1 THEN {0} ELSE 0..np)} : \E r \in {R(1..4)} : \E a \in {R(-8..31)} :
    /\ hist' = Append(hist, <<"put", q, r, R(-3..22), R(-3..18), R({0, 0, 5, 13}), a>>) /\ UNCHANGED <<brd, free, np, no, edge, all>>
NewOther == no < 3 /\ \E n \in {R({1, 2, 4, 5, 6, 8, 9})} : \E p \in {R((0..14) \X (0..10))} : \E sd \in {R(0..1)} : \E h \in {R({4, 10, 17})} : \E c \in {R(0..1)} :
    /\ no' = no + 1
    /\ hist' = Append(hist, <<"oth", no + 1, h, sd>> \o (IF c = 0 THEN <<1>> \o Enc(Move(Cut(n), p))
                ELSE <<2>> \o Enc(Move(<< L(-1,-1,5,-1), L(5,-1,5,4), L(5,4,-1,4), L(-1,4,-1,-1) >>, p)) \o Enc(LET c1 == Move(Cut(n), p) IN IF Len(c1) = 1 THEN c1 ELSE Rev(c1))))
    /\ UNCHANGED <<brd, free, np, edge, all>>
(* holes through the outline, through a cutout, and groups of holes that run into one another *)
AbsG(x) == IF x < 0 THEN -x ELSE x
Far(q) == \A i \in DOMAIN hist : hist[i][1] = "xhole" => AbsG(hist[i][2] - q[1]) > 1 \/ AbsG(hist[i][3] - q[2]) > 1
XEdge == \E S \in {{ p \in edge : Far(p) }} : IF S = {} THEN UNCHANGED <<brd, free, hist, np, no, edge, all>> ELSE \E p \in {R(S)} : edge' = edge \ {p} /\ hist' = Append(hist, <<"xhole", p[1], p[2], R(12..19), R(0..4)>>) /\ UNCHANGED <<brd, free, np, no, all>>
XCut == free # {} /\ \E p \in {R(free)} : \E n \in {R({1, 2, 8, 9})} : LET c == Move(Cut(n), p) IN
        \E k \in {R(0..(Len(c) - 1))} : \E X \in {{ x \in (CASE n = 1 -> {<<1, 0>>, <<3, 1>>, <<0, 2>>, <<2, 2>>} [] n = 2 -> {<<1, 0>>, <<2, 0>>, <<1, 3>>} [] n = 8 -> {<<1, 0>>, <<0, 2>>, <<3, 0>>, <<0, 3>>} [] OTHER -> {<<3, 1>>, <<2, 2>>, <<1, 1>>}) : Far(<<p[1] + x[1], p[2] + x[2]>>) }} : IF X = {} THEN UNCHANGED <<brd, free, hist, np, no, edge, all>> ELSE \E x \in {R(X)} :
    /\ free' = free \ {p} /\ hist' = hist \o << <<"cut">> \o Enc(Turn(IF Len(c) = 1 THEN c ELSE Rev(c), k)), <<"xhole", p[1] + x[1], p[2] + x[2], R(5..16), R(0..4)>> >> /\ UNCHANGED <<brd, np, no, edge, all>>
XGroup == free # {} /\ \E p \in {R(free)} : \E q \in {R({ << <<1, 1>>, <<2, 1>> >>, << <<1, 2>>, <<1, 1>> >>, << <<1, 1>>, <<2, 1>>, <<2, 2>> >>, << <<2, 2>>, <<1, 2>>, <<1, 1>> >>, << <<1, 1>>, <<3, 1>>, <<2, 1>> >> })} :
    /\ free' = free \ {p} /\ hist' = hist \o [i \in DOMAIN q |-> <<"xhole", p[1] + q[i][1], p[2] + q[i][2], R(11..13), R(0..4)>>] /\ UNCHANGED <<brd, np, no, edge, all>>
(* a small hole which touches the others of its group only by way of a large one *)
XMixed == free # {} /\ \E p \in {R(free)} : \E f \in {R({<<1, 2, 3>>, <<1, 2, 3>>, <<2, 1, 3>>, <<1, 3, 2>>, <<3, 1, 2>>, <<3, 2, 1>>})} :
    \E q \in {R({ << <<1, 1>>, <<1, 2>>, <<2, 2>> >>, << <<1, 1>>, <<2, 1>>, <<2, 2>> >> })} : \E d \in {<<R(8..9), R(8..9), R(22..23)>>} :
    /\ free' = free \ {p} /\ hist' = hist \o [i \in 1..3 |-> <<"xhole", p[1] + q[f[i]][1], p[2] + q[f[i]][2], d[f[i]], R(0..4)>>] /\ UNCHANGED <<brd, np, no, edge, all>>
(* a hole through the edge and another one further in; no cutout near it *)
Touched(q) == { c \in (0..20) \X (0..20) : c[1] <= q[1] + 1 /\ c[1] + 4 >= q[1] /\ c[2] <= q[2] + 1 /\ c[2] + 4 >= q[2] }
XPair == \E S \in {{ p \in edge : (p[1] = 0 \/ p[2] = 0) /\ Far(p) /\ (Touched(<<p[1] + 1, p[2] + 1>>) \cap all) \subseteq free }} : S # {} /\ \E p \in {R(S)} : \E q \in {IF p[2] = 0 THEN <<p[1], 1>> ELSE <<1, p[2]>>} :
    /\ edge' = edge \ {p} /\ free' = free \ Touched(<<p[1] + 1, p[2] + 1>>)
    /\ hist' = hist \o << <<"xhole", p[1], p[2], R(11..13), R(0..4)>>, <<"xhole", q[1], q[2], R(11..13), R(0..4)>> >> /\ UNCHANGED <<brd, all, np, no>>
(* holes inside other holes or cutouts, and holes stated twice *)
XIn == free # {} /\ \E p \in {R(free)} : \E n \in {R(1..4)} : \E d \in {R(2..13)} : \E k \in {R(0..1)} :
    \E a \in {<<"xhole", p[1] + 1, p[2] + 1, IF n = 3 THEN d ELSE R(15..19), R(0..4)>>} : \E b \in {<<"xhole", p[1] + 1, p[2] + 1, d, R(0..4)>>} :
    /\ free' = free \ {p} /\ hist' = hist \o (IF n = 1 THEN << <<"cut">> \o Enc(Rev(Move(Cut(1), p))), b >> ELSE IF n = 4 THEN << <<"cut">> \o Enc(Move(Cut(9), p)), <<"xhole", p[1] + 2, p[2] + 1, R(22..26), 0>> >> ELSE IF k = 0 THEN <<a, b>> ELSE <<b, a>>) /\ UNCHANGED <<brd, all, np, no, edge>>
(* a ring of holes around a place that remains: may be refused *)
XRing == free # {} /\ \E p \in {R(free)} : free' = free \ {p} /\ hist' = hist \o [i \in 1..4 |-> <<"xring", p[1] + << 1, 1, 2, 2 >>[i], p[2] + << 1, 2, 2, 1 >>[i], R(11..13), R(0..4)>>] /\ UNCHANGED <<brd, all, np, no, edge>>
XOut == \E y \in {R(0..12)} : hist' = Append(hist, <<"xhole", -3, y, R(5..19), R(0..4)>>) /\ UNCHANGED <<brd, free, np, no, edge, all>>      \* beside the board
CInit == all = {} /\ Init /\ np = 0 /\ no = 0 /\ edge = {}
CNext == /\ Len(hist) < Depth
         /\ IF hist = <<>> THEN ConvBoard
            ELSE \E x \in {R(1..12)} :
                 IF x <= 2 /\ free # {} THEN ConvCut ELSE IF x <= 4 /\ free # {} THEN ConvHole
                 ELSE IF x <= 7 /\ np < 3 THEN NewPart ELSE IF x <= 9 /\ no < 3 THEN NewOther ELSE Place
CSpec == CInit /\ [][CNext]_<<brd, free, hist, np, no, edge, all>>
XNext == /\ Len(hist) < Depth
         /\ IF hist = <<>> THEN ConvBoard
            ELSE \E x \in {R(1..12)} :
                 IF x <= 2 /\ edge # {} THEN XEdge ELSE IF x = 3 /\ Len(hist) < Depth - 1 /\ ENABLED XPair THEN XPair ELSE IF x = 4 /\ free # {} /\ Len(hist) < Depth - 3 /\ R(1..5) = 1 THEN XRing ELSE IF x <= 5 /\ free # {} /\ Len(hist) < Depth - 1 THEN XCut
                 ELSE IF x <= 8 /\ free # {} /\ Len(hist) < Depth - 2 THEN (IF R(1..2) = 1 THEN XGroup ELSE XMixed)
                 ELSE IF x = 9 /\ free # {} THEN ConvCut ELSE IF x = 10 /\ free # {} THEN (IF Len(hist) < Depth - 1 THEN XIn ELSE ConvHole) ELSE IF x = 11 /\ edge # {} THEN XEdge ELSE IF x = 12 /\ Far(<<-3, 2>>) /\ Far(<<-3, 4>>) /\ Far(<<-3, 6>>) /\ Far(<<-3, 8>>) /\ Far(<<-3, 10>>) /\ Far(<<-3, 12>>) /\ Far(<<-3, 0>>) THEN XOut
                 ELSE IF np < 3 THEN NewPart ELSE Place
XSpec == CInit /\ [][XNext]_<<brd, free, hist, np, no, edge, all>>
=============================================================================
