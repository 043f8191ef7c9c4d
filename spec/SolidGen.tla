------------------------------ MODULE SolidGen ------------------------------
(* Generates behaviours for drv_solid: boards of every listed shape, either *)
(* direction, any first segment, with cutouts and holes in disjoint cells   *)
(* of their interior, built between different heights.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth
VARIABLES brd, free, hist
R(X) == RandomElement(X)
L(x1, y1, x2, y2) == [k |-> 1, a |-> <<x1, y1>>, b |-> <<x2, y2>>, c |-> <<0, 0>>, w |-> 0]
A(cx, cy, x1, y1, x2, y2, w) == [k |-> 2, a |-> <<x1, y1>>, b |-> <<x2, y2>>, c |-> <<cx, cy>>, w |-> w]
Board(n) ==
    CASE n = 1 -> << L(0,0,20,0), L(20,0,20,15), L(20,15,0,15), L(0,15,0,0) >>
      [] n = 2 -> << L(0,0,20,0), L(20,0,20,6), L(20,6,8,6), L(8,6,8,15), L(8,15,0,15), L(0,15,0,0) >>
      [] n = 3 -> << L(3,0,17,0), A(17,3,17,0,20,3,0), L(20,3,20,12), A(17,12,20,12,17,15,0), L(17,15,3,15), A(3,12,3,15,0,12,0), L(0,12,0,3), A(3,3,0,3,3,0,0) >>
      [] n = 4 -> << L(5,0,15,0), A(15,5,15,0,15,10,0), L(15,10,5,10), A(5,5,5,10,5,0,0) >>
      [] n = 5 -> << A(8,8,16,8,16,8,0) >>
      [] n = 6 -> << A(12,12,22,12,18,20,0), A(12,12,18,20,4,18,0), A(12,12,4,18,12,2,0), A(12,12,12,2,22,12,0) >>
      [] n = 7 -> << A(12,12,18,20,18,4,0), L(18,4,18,20) >>
      [] n = 8 -> << L(0,6,20,6), A(12,12,20,6,20,18,0), L(20,18,0,18), L(0,18,0,6) >>
      [] n = 9 -> << L(0,0,20,0), L(20,0,20,15), L(20,15,15,15), A(10,15,15,15,5,15,1), L(5,15,0,15), L(0,15,0,0) >>
      [] n = 10 -> << L(0,0,20,0), L(20,0,10,15), L(10,15,0,0) >>
      [] n = 11 -> << A(5,5,5,10,10,5,0), L(10,5,10,10), L(10,10,5,10) >>
      [] n = 12 -> << L(5,0,15,0), L(15,0,20,7), L(20,7,15,14), L(15,14,5,14), L(5,14,0,7), L(0,7,5,0) >>
      [] n = 13 -> << A(10,0,20,0,0,0,0), L(0,0,5,0), A(10,0,5,0,15,0,1), L(15,0,20,0) >>
      [] n = 14 -> << A(12,12,12,22,12,2,0), A(12,12,12,2,12,22,0) >>
      [] n = 15 -> << A(12,12,20,18,18,20,0), A(12,12,18,20,20,18,0) >>       \* a small and a large arc of one circle
      [] n = 16 -> << L(0,0,20,0), L(20,0,20,4), A(20,9,20,4,20,14,1), L(20,14,20,18), L(20,18,0,18), A(0,9,0,18,0,0,0) >>
      [] OTHER -> << L(0,0,20,0), L(20,0,20,10), A(12,4,20,10,18,12,0), L(18,12,0,12), L(0,12,0,0) >>
Cells(n) ==
    CASE n = 1 -> {1, 5, 9, 13} \X {1, 5, 9}
      [] n = 2 -> {<<1, 1>>, <<9, 1>>, <<13, 1>>, <<1, 5>>, <<1, 10>>}
      [] n = 3 -> {<<3, 1>>, <<7, 1>>, <<11, 1>>, <<1, 5>>, <<5, 5>>, <<9, 5>>, <<13, 5>>, <<5, 9>>, <<9, 9>>}
      [] n = 4 -> {<<5, 1>>, <<9, 1>>, <<13, 1>>, <<5, 5>>, <<9, 5>>, <<13, 5>>}
      [] n = 5 -> {4, 8} \X {4, 8}
      [] n \in {6, 7, 14, 15} -> {8, 12} \X {8, 12}
      [] n = 8 -> {1, 5, 9, 13} \X {7, 12}
      [] n = 9 -> {<<1, 1>>, <<5, 1>>, <<9, 1>>, <<13, 1>>, <<1, 5>>, <<5, 5>>, <<9, 5>>, <<13, 5>>, <<16, 9>>, <<1, 9>>}
      [] n = 10 -> {<<5, 1>>, <<9, 1>>, <<13, 1>>, <<8, 5>>}
      [] n = 11 -> {<<3, 3>>}
      [] n = 12 -> {5, 9} \X {1, 5, 9}
      [] n = 13 -> {<<8, 6>>}
      [] n = 16 -> {1, 5, 9} \X {1, 5, 9, 13}
      [] OTHER -> {1, 5, 9, 13} \X {1, 5}
NB == 17
(* points of the circle of radius 10 around (12, 12) in counterclockwise order, some of them joined by arcs or chords *)
Rim == << <<22, 12>>, <<20, 18>>, <<18, 20>>, <<12, 22>>, <<6, 20>>, <<4, 18>>, <<2, 12>>, <<4, 6>>, <<6, 4>>, <<12, 2>>, <<18, 4>>, <<20, 6>> >>
Wheel == UNION { { LET e == [i \in DOMAIN ix |-> i \in arcs] p(i) == Rim[ix[i]] q(i) == Rim[ix[(i % Len(ix)) + 1]]
                 IN [i \in DOMAIN ix |-> IF e[i] \/ (Len(ix) = 2 /\ i = 1) THEN A(12, 12, p(i)[1], p(i)[2], q(i)[1], q(i)[2], 0) ELSE L(p(i)[1], p(i)[2], q(i)[1], q(i)[2])]
                 : arcs \in {R(SUBSET DOMAIN ix)} }
               : ix \in { SelectSeq([i \in 1..12 |-> i], LAMBDA i : i \in S) : S \in {R({ T \in SUBSET (1..12) : Cardinality(T) >= 2 })} } }
Cut(n) ==
    CASE n = 1 -> << L(0,0,3,0), L(3,0,3,2), L(3,2,0,2), L(0,2,0,0) >>
      [] n = 2 -> << L(0,0,3,0), L(3,0,1,3), L(1,3,0,0) >>
      [] n = 3 -> << A(1,1,1,0,1,2,0), L(1,2,1,0) >>
      [] n = 4 -> << L(1,0,2,0), A(2,1,2,0,2,2,0), L(2,2,1,2), A(1,1,1,2,1,0,0) >>
      [] n = 5 -> << L(0,0,2,0), A(0,0,2,0,0,2,0), L(0,2,0,0) >>
      [] n = 6 -> << L(1,0,2,0), A(2,1,2,0,3,1,0), L(3,1,3,2), A(2,2,3,2,2,3,0), L(2,3,1,3), A(1,2,1,3,0,2,0), L(0,2,0,1), A(1,1,0,1,1,0,0) >>
      [] n = 7 -> << A(1,1,2,1,1,2,0), A(1,1,1,2,2,1,0) >>
      [] n = 8 -> << L(0,0,3,0), L(3,0,3,1), A(3,3,3,1,1,3,1), L(1,3,0,3), L(0,3,0,0) >>
      [] n = 9 -> << A(2,1,3,1,3,1,0) >>
      [] OTHER -> << A(1,2,1,1,2,2,1), L(2,2,1,1) >>                            \* three quarters of a circle, clockwise
NC == 10
Move(o, p) == [i \in DOMAIN o |-> [o[i] EXCEPT !.a = <<@[1] + p[1], @[2] + p[2]>>, !.b = <<@[1] + p[1], @[2] + p[2]>>, !.c = <<@[1] + p[1], @[2] + p[2]>>]]
Rev(o) == [i \in DOMAIN o |-> LET s == o[Len(o) + 1 - i] IN [s EXCEPT !.a = s.b, !.b = s.a, !.w = IF s.k = 1 THEN 0 ELSE 1 - @]]
Turn(o, k) == [i \in DOMAIN o |-> o[((i + k - 1) % Len(o)) + 1]]
Mirror(o) == Rev([i \in DOMAIN o |-> LET s == o[i] IN [s EXCEPT !.a = <<s.a[2], s.a[1]>>, !.b = <<s.b[2], s.b[1]>>, !.c = <<s.c[2], s.c[1]>>, !.w = IF s.k = 1 THEN 0 ELSE 1 - @]])
Enc(o) == LET RECURSIVE go(_)
              go(i) == IF i > Len(o) THEN <<>> ELSE <<o[i].k, o[i].a[1], o[i].a[2], o[i].b[1], o[i].b[2], o[i].c[1], o[i].c[2], o[i].w>> \o go(i + 1)
          IN <<Len(o)>> \o go(1)
Vary(o) == { LET q == Turn(o, k) IN IF d = 1 THEN Rev(q) ELSE q : k \in {R(0..(Len(o) - 1))}, d \in {R(0..1)} }
Swap(c) == { <<p[2], p[1]>> : p \in c }
NewBoard == \E n \in {R(1..NB)} : \E m \in {R(0..1)} : \E o \in Vary(IF m = 1 THEN Mirror(Board(n)) ELSE Board(n)) :
    /\ brd' = n /\ free' = (IF m = 1 THEN Swap(Cells(n)) ELSE Cells(n)) /\ hist' = Append(hist, <<"brd">> \o Enc(o))
NewWheel == \E w \in Wheel : \E o \in Vary(w) : brd' = 0 /\ free' = {} /\ hist' = Append(hist, <<"brd">> \o Enc(o))
NewCut == free # {} /\ \E p \in {R(free)} : \E n \in {R(1..NC)} : \E o \in Vary(Move(Cut(n), p)) : \E ov \in {R(0..1)} :
    /\ free' = free \ {p} /\ hist' = Append(hist, <<"cut", ov>> \o Enc(o)) /\ UNCHANGED brd
NewHole == free # {} /\ \E p \in {R(free)} : \E x \in {R({<<1, 1, 1>>, <<2, 1, 1>>, <<2, 2, 1>>, <<1, 2, 1>>})} : \E ov \in {R(0..1)} :
    /\ free' = free \ {p} /\ hist' = Append(hist, <<"hole", ov, p[1] + x[1], p[2] + x[2], x[3]>>) /\ UNCHANGED brd
(* two cutouts which cross, and a cutout through the edge of the board *)
Crossing(n) ==
    CASE n = 1 -> << << L(0,0,2,0), L(2,0,2,2), L(2,2,0,2), L(0,2,0,0) >>, << L(1,1,3,1), L(3,1,3,3), L(3,3,1,3), L(1,3,1,1) >> >>
      [] n = 2 -> << << L(0,0,2,0), L(2,0,2,3), L(2,3,0,3), L(0,3,0,0) >>, << L(1,1,3,0), L(3,0,3,2), L(3,2,1,1) >> >>
      [] n = 3 -> << << L(0,0,2,0), A(0,0,2,0,0,2,0), L(0,2,0,0) >>, << L(1,1,3,1), L(3,1,3,3), L(3,3,1,3), L(1,3,1,1) >> >>
      [] n = 4 -> << << L(0,0,2,0), L(2,0,2,2), L(2,2,0,2), L(0,2,0,0) >>, << L(1,1,3,1), A(1,1,3,1,1,3,0), L(1,3,1,1) >> >>
      [] n = 5 -> << << A(1,1,2,1,2,1,0) >>, << A(2,2,3,2,3,2,0) >> >>
      [] OTHER -> << << A(1,1,2,1,2,1,0) >>, << L(1,1,3,2), L(3,2,2,3), L(2,3,1,1) >> >>
Through(n) ==
    CASE n = 1 -> << L(0,-3,2,-3), L(2,-3,2,1), L(2,1,0,1), L(0,1,0,-3) >>
      [] n = 2 -> << L(0,-3,2,-3), L(2,-3,1,1), L(1,1,0,-3) >>
      [] n = 3 -> << A(1,-1,2,-1,2,-1,0) >>
      [] OTHER -> << L(0,-2,2,-2), L(2,-2,2,0), A(1,0,2,0,0,0,0), L(0,0,0,-2) >>
Swap2(c) == Rev([i \in DOMAIN c |-> LET s == c[i] t == [s EXCEPT !.a = <<@[2], @[1]>>, !.b = <<@[2], @[1]>>, !.c = <<@[2], @[1]>>] IN IF s.k = 1 THEN t ELSE [t EXCEPT !.w = 1 - @]])
XTwo == \E p \in {R(free)} : \E n \in {R(1..6)} : \E f \in {R(0..1)} : \E m \in {R(0..1)} : \E c \in {IF m = 1 THEN <<Swap2(Crossing(n)[1]), Swap2(Crossing(n)[2])>> ELSE Crossing(n)} :
    \E a \in Vary(Move(c[1 + f], p)) : \E b \in Vary(Move(c[2 - f], p)) :
    /\ free' = free \ {p} /\ hist' = hist \o << <<"cut", R(0..1)>> \o Enc(a), <<"xcut", 1>> \o Enc(b) >> /\ UNCHANGED brd
Low == IF brd \in {1, 2, 9} THEN { p \in free : p[1] = 1 \/ p[2] = 1 } ELSE {}
XThrough == \E p \in {R(Low)} : \E n \in {R(1..4)} : \E o \in Vary(Move(IF p[2] = 1 THEN Through(n) ELSE Swap2(Through(n)), p)) :
    /\ free' = free \ {p} /\ hist' = Append(hist, <<"xcut", 1>> \o Enc(o)) /\ UNCHANGED brd
Sol == \E z \in {R(-3..2)} : \E t \in {R((-4..4) \ {z})} : hist' = Append(hist, <<"sol", t, z>>) /\ UNCHANGED <<brd, free>>
Init == brd = 0 /\ free = {} /\ hist = <<>>
Last == IF hist = <<>> THEN "" ELSE hist[Len(hist)][1]
Next == /\ Len(hist) < Depth
        /\ \E x \in {R(1..12)} :
           IF hist = <<>> THEN (IF x <= 9 THEN NewBoard ELSE NewWheel)
           ELSE IF Len(hist) = Depth - 1 THEN Sol
           ELSE IF Last = "sol" THEN (IF x <= 5 THEN NewBoard ELSE IF x <= 7 THEN NewWheel ELSE IF x <= 9 \/ free = {} THEN Sol ELSE IF x <= 11 THEN NewCut ELSE NewHole)
           ELSE IF x <= 2 /\ free # {} /\ Len(hist) < Depth - 2 THEN XTwo ELSE IF x <= 4 /\ Low # {} THEN XThrough
           ELSE IF x <= 6 /\ free # {} THEN NewCut ELSE IF x <= 9 /\ free # {} THEN NewHole ELSE Sol
Spec == Init /\ [][Next]_<<brd, free, hist>>
Emit == Len(hist) = Depth => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
