------------------------------ MODULE GeomGen ------------------------------
(* Generates behaviours for drv_geom: pairs of segments, split requests and *)
(* outlines grown as self-avoiding chains, then combined.                   *)
EXTENDS GeomState, Json
CONSTANTS Profile, Depth, G
VARIABLES Q, hist, cur, cnt
N == 8
Box == (0..G) \X (0..G)
R(X) == RandomElement(X)
RMAX == 32
Lattice(c, r) == { p \in (0..N) \X (0..N) : D2(p, c) = r }
Enc(s) == <<s.k, s.a[1], s.a[2], s.b[1], s.b[2], s.c[1], s.c[2], s.w>>
Line(a, b) == [k |-> 1, a |-> a, b |-> b, c |-> <<0, 0>>, w |-> 0]
Arc(c, a, b, w) == [k |-> 2, a |-> a, b |-> b, c |-> c, w |-> w]
Circ(c, a) == [k |-> 4, a |-> a, b |-> a, c |-> c, w |-> 0]
(* a random segment of kind k with points in Box; the set is empty when the draw does not give one *)
Draw(k) ==
    UNION { IF k = 1 THEN (IF p # q THEN {Line(p, q)} ELSE {})
            ELSE IF p = q \/ D2(p, q) > RMAX THEN {}
            ELSE IF k = 4 THEN {Circ(p, q)}
            ELSE UNION { UNION { UNION {{Arc(p, q, e, w)} : w \in {R(0..1)}} : e \in {R(L)}} : L \in {Lattice(p, D2(p, q)) \ {q}} \ {{}} }
            : p \in {R(Box)}, q \in {R(Box)} }
Kinds == IF Profile = "arcs" THEN <<2, 2, 2, 4>> ELSE IF Profile = "lines" THEN <<1>> ELSE IF Profile = "circ" THEN <<4>> ELSE <<1, 2, 2, 4>>
RSeg == UNION { UNION {Draw(Kinds[i]) : i \in {R(DOMAIN Kinds)}} : x \in {cnt} }
(* a variation of a segment: shares centre, ends or carrier with it *)
Vary(s) ==
    UNION { CASE v = 1 -> {Reversed(s)}
              [] v = 2 /\ s.k = 2 -> {[s EXCEPT !.w = 1 - s.w]}
              [] v = 3 /\ s.k # 1 -> UNION { UNION {{Arc(s.c, a, b, w)} : w \in {R(0..1)}} : a \in {R(Lattice(s.c, Rad2(s)))}, b \in {R(Lattice(s.c, Rad2(s)))} }
              [] v = 4 /\ s.k = 1 -> UNION { {Line(s.a, p)} : p \in {R(Box)} }
              [] v = 5 /\ s.k = 1 -> UNION { {Line(<<s.a[1] + i * (s.b[1] - s.a[1]), s.a[2] + i * (s.b[2] - s.a[2])>>, <<s.b[1] + j * (s.b[1] - s.a[1]), s.b[2] + j * (s.b[2] - s.a[2])>>)} : i \in {R(-1..2)}, j \in {R(-1..2)} }
              [] v = 6 /\ s.k # 1 -> UNION { {Line(s.a, p)} : p \in {R(Box)} }
              [] v = 7 /\ s.k = 2 -> {Line(s.a, s.b)}
              [] v = 8 /\ s.k = 4 -> {Circ(s.c, p) : p \in {R(Box)}}
              [] OTHER -> {} : v \in {R(1..8)} }
InBox(s) == \A p \in {s.a, s.b, s.c} : p[1] \in 0..N /\ p[2] \in 0..N
OK(s) == ValidSeg(s) /\ InBox(s) /\ (s.k = 1 \/ Rad2(s) <= RMAX)
Op(o) == hist' = Append(hist, o)
(* ---- pairs *)
PairOps == UNION { UNION { IF OK(s) /\ OK(t) THEN {<< <<"isect">> \o Enc(s) \o Enc(t), <<"isect">> \o Enc(t) \o Enc(s) >>} ELSE {} : t \in (IF x <= 5 THEN RSeg ELSE Vary(s)) } : s \in RSeg, x \in {R(1..8)} }
(* ---- split and getters *)
OnPts(s) == { p \in (0..N) \X (0..N) : OnSeg(s, p) }
LongLine == UNION { UNION { {Line(p, <<p[1] + m * d[1], p[2] + m * d[2]>>)} : d \in {R(((-2..2) \X (-2..2)) \ {<<0, 0>>})}, m \in {R(2..4)} } : p \in {R(Box)}, y \in {cnt} }
SplitSeg == UNION { IF x <= 3 THEN { s \in LongLine : OK(s) } ELSE RSeg : x \in {R(1..8)} }
SplitPts(s) == { LET P0 == IF x <= 5 /\ OnPts(s) \ Ends(s) # {} THEN OnPts(s) \ Ends(s) ELSE OnPts(s) IN IF x <= 7 /\ P0 # {} THEN R(P0) ELSE R(Box) : x \in {R(1..8)} }
SplitOps == UNION { IF ~OK(s) THEN {} ELSE
                    UNION { {<< <<"mk">> \o Enc(s), <<"split">> \o Enc(s) \o (IF n = 0 THEN <<0>> ELSE IF n = 1 THEN <<1>> \o p ELSE IF n = 2 THEN <<2>> \o p \o q ELSE <<3>> \o p \o q \o p) >>}
                            : n \in {<<0, 1, 1, 1, 2, 2, 2, 2, 2, 3>>[y] : y \in {R(1..10)}}, p \in SplitPts(s), q \in SplitPts(s) } : s \in SplitSeg }
            \cup UNION { UNION { {<< <<"mk", k>> \o p \o q \o c \o <<w>> >>} : w \in {R(0..1)}, k \in {R({1, 2})} } : p \in {R(Box)}, q \in {R(Box)}, c \in {R(Box)} }
(* ---- outlines: cur is the outline under construction *)
O == Q[cur]
Last == O.segs[Len(O.segs)].b
Free(s) == OK(s) /\ \A i \in DOMAIN O.segs :
    LET z == Common(s, O.segs[i]).n
        closing == s.b = O.segs[1].a IN
    IF Len(O.segs) = 1 THEN z = (IF closing THEN 2 ELSE 1)
    ELSE z = (IF i = Len(O.segs) \/ (i = 1 /\ closing) THEN 1 ELSE 0)
(* arcs with a given start and end: integer centres on the bisector *)
ArcsTo(a, b) == UNION { {Arc(c, a, b, w) : c \in { c \in (0..N) \X (0..N) : D2(c, a) = D2(c, b) /\ D2(c, a) <= RMAX /\ D2(c, a) > 0 }} : w \in {0, 1} }
ToPoint(p) == UNION { IF x <= 4 THEN {Line(Last, p)} ELSE LET A == ArcsTo(Last, p) IN IF A = {} THEN {Line(Last, p)} ELSE {R(A)} : x \in {R(1..6)} }
StartSeg == UNION { UNION { IF x = 1 THEN Draw(4) ELSE IF x <= 4 THEN Draw(2) ELSE Draw(1) : x \in {R(1..9)} } : y \in {cnt} }
Grow == IF O.segs = <<>> THEN { s \in StartSeg : OK(s) }
        ELSE UNION { { s \in UNION { ToPoint(p) : p \in (IF x <= 3 \/ Len(O.segs) >= 6 THEN {O.segs[1].a} ELSE {R(Box)}) } : s.a # s.b /\ Free(s) } : x \in {R(1..6)} }
BadAdd == UNION { { s \in Draw(k) : OK(s) /\ ~CanAdd(O, s) } : k \in {R({1, 2, 4})} }
Closed == { i \in 1..5 : Q[i].live /\ Q[i].closed }
Blank == { i \in 1..5 : ~Q[i].live }
AddOp(i, s) == /\ Op(<<"add", i>> \o Enc(s)) /\ Q' = [Q EXCEPT ![i] = IF CanAdd(Q[i], s) THEN DoAdd(Q[i], s) ELSE Q[i]]
NewOp == \E i \in Blank : \A j \in Blank : i <= j /\ Op(<<"new", i>>) /\ Q' = [Q EXCEPT ![i] = NewOutline] /\ cur' = i
Kill == \E i \in {R(1..5)} : Op(<<"new", i>>) /\ Q' = [Q EXCEPT ![i] = NewOutline] /\ cur' = i
(* the generator's guess of an operation's result: the first allowed one is enough to keep going; *)
(* an outline that was an argument is treated as gone and the result as closed                   *)
Use == \E i \in {R(Closed)}, x \in {R(1..10)} :
       IF x <= 4 /\ Cardinality(Closed) > 1
       THEN \E j \in {R(Closed \ {i})}, sub \in {R(0..1)}, k \in {R(1..4)} :
              /\ IF k = 1 THEN Op(<<"cuto", i, j, R(0..1)>>) ELSE Op(<<"opo", i, j, sub>>)
              /\ Q' = [Q EXCEPT ![j] = IF k = 1 \/ How(Q[i], Q[j].parts[1]) \notin {"no", "many"} THEN NoOutline ELSE Q[j],
                               ![i].parts = IF k # 1 /\ How(Q[i], Q[j].parts[1]) \notin {"no", "many"} THEN Append(@, Q[j].parts[1]) ELSE @]
       ELSE \E s \in { s \in Draw(4) : OK(s) }, sub \in {R(0..1)}, k \in {R(1..3)} :
              /\ IF k = 1 THEN Op(<<"cutc", i, R(0..1)>> \o Enc(s)) ELSE Op(<<"opc", i, sub>> \o Enc(s))
              /\ Q' = [Q EXCEPT ![i].parts = IF k # 1 /\ How(Q[i], <<s>>) \notin {"no", "many"} THEN Append(@, <<s>>) ELSE @]
OutStep ==
    \E x \in {R(1..20)} :
    IF Q[cur].live /\ ~Q[cur].closed /\ x <= 17
    THEN \E A \in {Grow} : IF A = {} THEN (IF x <= 3 THEN Kill ELSE UNCHANGED <<Q, hist>> /\ cur' = cur) ELSE \E s \in {R(A)} : AddOp(cur, s) /\ cur' = cur
    ELSE IF Q[cur].live /\ x >= 19 THEN \E A \in {BadAdd} : IF A = {} THEN UNCHANGED <<Q, hist, cur>> ELSE \E s \in {R(A)} : AddOp(cur, s) /\ cur' = cur
    ELSE IF Closed # {} /\ x <= (IF Profile = "ops" THEN 13 ELSE 0) THEN Use /\ cur' = cur
    ELSE IF Blank # {} THEN NewOp ELSE IF x <= 2 THEN Kill ELSE UNCHANGED <<Q, hist, cur>>
Init == Q = [i \in 1..6 |-> NoOutline] /\ hist = <<>> /\ cur = 1 /\ cnt = 0
Step == IF Profile \in {"outline", "ops"} THEN OutStep
        ELSE /\ UNCHANGED <<Q, cur>>
             /\ \E P \in {IF Profile = "split" THEN SplitOps ELSE PairOps} :
                IF P = {} THEN UNCHANGED hist ELSE \E o \in {R(P)} : hist' = hist \o o
Next == cnt < Depth /\ cnt' = cnt + 1 /\ Step
(* the depth of a behaviour counts draws; some draws are void *)
Spec == Init /\ [][Next]_<<Q, hist, cur, cnt>>
Emit == cnt < Depth \/ PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
