----------------------------- MODULE GeomOpGen -----------------------------
(* Generates behaviours of the outline machine that combine outlines: a     *)
(* base shape, then shapes and circles added to, subtracted from or cut out *)
(* of it, in positions whose outcome the specification decides.             *)
EXTENDS GeomState, Json
CONSTANTS Depth
VARIABLES Q, hist, cnt
R(X) == RandomElement(X)
N == 8
RMAX == 32
Enc(s) == <<s.k, s.a[1], s.a[2], s.b[1], s.b[2], s.c[1], s.c[2], s.w>>
L(a, b) == [k |-> 1, a |-> a, b |-> b, c |-> <<0, 0>>, w |-> 0]
A(c, a, b, w) == [k |-> 2, a |-> a, b |-> b, c |-> c, w |-> w]
Circ(c, a) == [k |-> 4, a |-> a, b |-> a, c |-> c, w |-> 0]
Poly(p) == [i \in DOMAIN p |-> L(p[i], p[IF i = Len(p) THEN 1 ELSE i + 1])]
(* shapes in their own coordinates, w by h *)
Shape(n, w, h) ==
    CASE n = 1 -> Poly(<< <<0, 0>>, <<w, 0>>, <<w, h>>, <<0, h>> >>)
      [] n = 2 -> Poly(<< <<0, 0>>, <<w, 1>>, <<1, h>> >>)
      [] n = 3 -> Poly(<< <<0, 0>>, <<w, 0>>, <<w, 1>>, <<1, 1>>, <<1, h>>, <<0, h>> >>)                              \* an L
      [] n = 4 -> Poly(<< <<0, 0>>, <<5, 0>>, <<5, h>>, <<4, h>>, <<4, 1>>, <<1, 1>>, <<1, h>>, <<0, h>> >>)        \* a U
      [] n = 5 -> Poly(<< <<2, 0>>, <<4, 2>>, <<2, 4>>, <<0, 2>> >>)
      [] n = 6 -> << A(<<0, 2>>, <<0, 0>>, <<0, 4>>, 0), L(<<0, 4>>, <<0, 0>>) >>                                      \* a D
      [] n = 7 -> << L(<<0, 0>>, <<w, 0>>), A(<<w, 1>>, <<w, 0>>, <<w, 2>>, 0), L(<<w, 2>>, <<0, 2>>), A(<<0, 1>>, <<0, 2>>, <<0, 0>>, 0) >>  \* a slot
      [] n = 8 -> << L(<<0, 0>>, <<5, 0>>), L(<<5, 0>>, <<5, 4>>), L(<<5, 4>>, <<4, 4>>), A(<<3, 4>>, <<4, 4>>, <<2, 4>>, 1), L(<<2, 4>>, <<0, 4>>), L(<<0, 4>>, <<0, 0>>) >>  \* a round notch
      [] n = 9 -> << L(<<2, 2>>, <<4, 2>>), A(<<2, 2>>, <<4, 2>>, <<2, 0>>, 0), L(<<2, 0>>, <<2, 2>>) >>              \* three quarters of a disc
      [] n = 10 -> << A(<<0, 0>>, <<4, 0>>, <<0, 4>>, 0), L(<<0, 4>>, <<0, 0>>), L(<<0, 0>>, <<4, 0>>) >>             \* one quarter
      [] n = 11 -> << L(<<1, 0>>, <<4, 0>>), A(<<4, 1>>, <<4, 0>>, <<5, 1>>, 0), L(<<5, 1>>, <<5, 3>>), A(<<4, 3>>, <<5, 3>>, <<4, 4>>, 0), L(<<4, 4>>, <<1, 4>>),
                      A(<<1, 3>>, <<1, 4>>, <<0, 3>>, 0), L(<<0, 3>>, <<0, 1>>), A(<<1, 1>>, <<0, 1>>, <<1, 0>>, 0) >>
      [] n = 12 -> << A(<<0, 0>>, <<3, 4>>, <<-3, 4>>, 0), A(<<0, 8>>, <<-3, 4>>, <<3, 4>>, 0) >>                       \* a lens
      [] n = 13 -> << A(<<3, 0>>, <<5, 2>>, <<1, 2>>, 0), A(<<3, 4>>, <<1, 2>>, <<5, 2>>, 0) >>                         \* a smaller lens
      [] OTHER -> LET r == <<w, n % 3>> IN << Circ(<<0, 0>>, r) >>
SEG(s, F(_), m) == [s EXCEPT !.a = F(@), !.b = F(@), !.c = F(@), !.w = IF m /\ s.k = 2 THEN 1 - @ ELSE @]
Spin(p, d) == CASE d = 0 -> p [] d = 1 -> <<-p[2], p[1]>> [] d = 2 -> <<-p[1], -p[2]>> [] OTHER -> <<p[2], -p[1]>>
Spun(o, d) == [i \in DOMAIN o |-> SEG(o[i], LAMBDA p : Spin(p, d), FALSE)]
Moved(o, v) == [i \in DOMAIN o |-> SEG(o[i], LAMBDA p : <<p[1] + v[1], p[2] + v[2]>>, FALSE)]
Turned(o, k) == [i \in DOMAIN o |-> o[((i + k - 1) % Len(o)) + 1]]
Back(o) == [i \in DOMAIN o |-> IF o[1].k = 4 THEN o[1] ELSE LET s == o[Len(o) + 1 - i] IN [s EXCEPT !.a = s.b, !.b = s.a, !.w = IF s.k = 2 THEN 1 - @ ELSE @]]
InBox(s) == \A p \in {s.a, s.b, s.c} : p[1] \in -4..12 /\ p[2] \in -4..12
OKs(o) == \A i \in DOMAIN o : InBox(o[i]) /\ (o[i].k = 1 \/ Rad2(o[i]) <= RMAX)
(* a random chain; empty when the draw gives none *)
Draw(y) == UNION { LET b == Moved(Spun(Shape(n, w, h), d), v) k == R(0..(Len(b) - 1)) o == IF x = 0 THEN Turned(b, k) ELSE Turned(Back(b), k)
                IN IF OKs(o) /\ (\A i \in DOMAIN o : o[i].a[1] \in -1..9 /\ o[i].a[2] \in -1..9) THEN {o} ELSE {}
                : n \in {R(IF y = 0 /\ R(1..3) = 1 THEN {1} ELSE 1..16)}, w \in {R(IF y = 0 THEN 3..10 ELSE 2..5)}, h \in {R(IF y = 0 THEN 3..10 ELSE 2..5)}, d \in {R(0..3)}, v \in {R((-1..8) \X (-1..8))}, x \in {R(0..1)} }
Draws(y) == UNION { Draw(x + y) : x \in 1..20 }
Free == { i \in 2..5 : ~Q[i].live }
First(S) == CHOOSE i \in S : \A j \in S : i <= j
AddAll(i, B) == << <<"new", i>> >> \o [k \in DOMAIN B |-> <<"add", i>> \o Enc(B[k])]
Made(B) == [NewOutline EXCEPT !.segs = B, !.closed = TRUE, !.in = <<>>, !.parts = <<B>>]
Base == \E B \in {Draw(cnt)} : IF B = {} THEN UNCHANGED <<Q, hist>> ELSE \E b \in B : hist' = hist \o AddAll(1, b) /\ Q' = [Q EXCEPT ![1] = Made(b)]
(* combine outline 1 with a chain drawn; what is not decided is not asked for *)
Use == \E D \in {Draws(cnt)} : \E c \in {R(1..10)} :
       \E G \in {{ [b |-> b, h |-> How(Q[1], b), x |-> \E i \in Q[1].sb : ~Apart(Q[1].parts[i], b) /\ Meet(Q[1].parts[i], b).n = 2] : b \in D }} :
       \E cx \in {{ g \in G : g.h = "no" /\ g.x }} :                                   \* crosses an earlier cutout only
       \E T \in {IF c <= 5 /\ cx # {} THEN cx ELSE IF c <= 8 THEN { g \in G : g.h = "two" } ELSE { g \in G : g.h # "any" }} :
       IF T = {} THEN UNCHANGED <<Q, hist>>
       ELSE \E g \in {R(T)}, sub \in {R(0..1)}, k \in {IF c <= 5 /\ cx # {} THEN 1 ELSE (R(1..7) + 1) \div 3} :
            LET one == Len(g.b) = 1
                op == IF one THEN (IF k = 1 THEN <<"cutc", 1, R(0..1)>> ELSE <<"opc", 1, sub>>) \o Enc(g.b[1])
                      ELSE IF k = 1 THEN <<"cuto", 1, 2, R(0..1)>> ELSE <<"opo", 1, 2, sub>>
            IN /\ hist' = hist \o (IF one THEN <<>> ELSE AddAll(2, g.b)) \o <<op>>
               /\ Q' = [Q EXCEPT ![1].parts = IF g.h = "two" \/ k = 1 THEN Append(@, g.b) ELSE @,
                               ![1].sb = IF (g.h = "two" /\ sub = 1) \/ k = 1 THEN @ \cup {Len(Q[1].parts) + 1} ELSE @]
Init == Q = [i \in 1..6 |-> NoOutline] /\ hist = <<>> /\ cnt = 0
Next == cnt < Depth /\ cnt' = cnt + 1 /\ IF Q[1].live THEN Use ELSE Base
Spec == Init /\ [][Next]_<<Q, hist, cnt>>
Emit == cnt < Depth \/ PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
