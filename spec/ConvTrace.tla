----------------------------- MODULE ConvTrace -----------------------------
(* Validates conversions of IDF boards (idf2igs): the files are read line   *)
(* by line by the grammar of IdfFile, the solids the board states follow    *)
(* from its outlines, holes, parts and placements, and the surfaces of the  *)
(* assembly, placed in the world, must be exactly these solids (Shell).     *)
EXTENDS Merged, Json, IOUtils
VARIABLES l, P, skip
I == INSTANCE IdfFile
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
M(v) == IF v >= 0 THEN (v + 50) \div 100 ELSE -((50 - v) \div 100)          \* 1e-5 mm to 1e-3 mm
Rnd(v, n) == IF v >= 0 THEN (v + n \div 2) \div n ELSE -((n \div 2 - v) \div n)
(* cot(angle / 2) in 1e-4, angles in 1e-3 degrees *)
Cot == [x \in {90000, 180000, 270000, 60000, 120000} |-> CASE x = 90000 -> 10000 [] x = 180000 -> 0 [] x = 270000 -> -10000 [] x = 60000 -> 17321 [] OTHER -> 5774]
(* cosine in 1e-4 of multiples of 15 degrees *)
CosT == <<10000, 9659, 8660, 7071, 5000, 2588, 0, -2588, -5000, -7071, -8660, -9659, -10000, -9659, -8660, -7071, -5000, -2588, 0, 2588, 5000, 7071, 8660, 9659>>
Known(a) == a % 15000 = 0
Cos(a) == CosT[((a \div 15000) % 24) + 1]
Sin(a) == Cos(a - 90000)
Seg(s) ==
    LET a == <<M(s[1]), M(s[2])>> b == <<M(s[3]), M(s[4])>> g == s[5] dx == b[1] - a[1] dy == b[2] - a[2] IN
    IF g = 0 THEN [k |-> 1, a |-> a, b |-> b, c |-> <<0, 0>>, w |-> 0]
    ELSE IF Abs(g) = 360000 THEN [k |-> 4, a |-> b, b |-> b, c |-> a, w |-> 0]
    ELSE LET ct == Sgn(g) * Cot[Abs(g)]
         IN [k |-> 2, a |-> a, b |-> b, c |-> <<Rnd(a[1] + b[1] - Rnd(dy * ct, 10000), 2), Rnd(a[2] + b[2] + Rnd(dx * ct, 10000), 2)>>, w |-> IF g < 0 THEN 1 ELSE 0]
Loop(q) == [i \in DOMAIN q |-> Seg(q[i])]
Loops(q) == [i \in DOMAIN q |-> Loop(q[i])]
Clear(q) == \A i \in DOMAIN q : \A j \in DOMAIN q[i] : q[i][j][5] = 0 \/ Abs(q[i][j][5]) = 360000 \/ Abs(q[i][j][5]) \in DOMAIN Cot
Hole(d) == << [k |-> 4, a |-> <<M(d[2] + d[1] \div 2), M(d[3])>>, b |-> <<M(d[2] + d[1] \div 2), M(d[3])>>, c |-> <<M(d[2]), M(d[3])>>, w |-> 0] >>
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
Holes(D) == LET all == D.dr \o Cat([i \in DOMAIN D.cp |-> D.cp[i].dr]) hs == [i \in DOMAIN all |-> Hole(all[i])]
            RECURSIVE once(_)
            once(i) == IF i > Len(hs) THEN <<>> ELSE IF \E j \in 1..(i - 1) : hs[j] = hs[i] THEN once(i + 1) ELSE <<hs[i]>> \o once(i + 1)      \* a hole may be stated twice
            IN once(1)
Board(D) == [top |-> M(D.bo.th \div 2), bot |-> -M(D.bo.th \div 2), lp |-> Loops(D.bo.lp) \o Holes(D)]
(* a part placed: turned about its origin as seen from the side it is on, moved to its place; on the bottom it is mirrored *)
Put(p, c, s, bot, x, y) == LET q == IF bot THEN <<-p[1], p[2]>> ELSE p IN <<Rnd(q[1] * c - q[2] * s, 10000) + x, Rnd(q[1] * s + q[2] * c, 10000) + y>>
Move(o, a, bot, x, y) ==
    LET c == Cos(a) s == IF bot THEN -Sin(a) ELSE Sin(a) IN
    [i \in DOMAIN o |-> [o[i] EXCEPT !.a = Put(@, c, s, bot, x, y), !.b = Put(@, c, s, bot, x, y), !.c = Put(@, c, s, bot, x, y), !.w = IF o[i].k = 2 /\ bot THEN 1 - @ ELSE @]]
PartOf(D, g, p) == D.lib[CHOOSE i \in DOMAIN D.lib : D.lib[i].g = g /\ D.lib[i].p = p]
Placements(D) == Cat([i \in DOMAIN D.cp |-> [j \in DOMAIN D.cp[i].of |-> [g |-> D.cp[i].of[j][1], p |-> D.cp[i].of[j][2], bot |-> D.cp[i].pos[4] = 1,
    x |-> D.cp[i].pos[1] + D.cp[i].of[j][3], y |-> D.cp[i].pos[2] + D.cp[i].of[j][4], z |-> D.cp[i].of[j][5], a |-> D.cp[i].pos[3] + D.cp[i].of[j][6]]]])
(* parts that are missing, have no outline or no height are left out *)
Solid(D, r) == I!InLib(D, r.g, r.p) /\ LET q == PartOf(D, r.g, r.p) IN q.lp # <<>> /\ q.lp[1] # <<>> /\ q.th >= 100
Part(D, r) ==
    LET q == PartOf(D, r.g, r.p) h == D.bo.th \div 2 + r.z IN
    [top |-> IF r.bot THEN -M(h) ELSE M(h + q.th), bot |-> IF r.bot THEN -M(h + q.th) ELSE M(h), lp |-> << Move(Loop(q.lp[1]), r.a, r.bot, M(r.x), M(r.y)) >>]
Other(D, s) == LET h == D.bo.th \div 2 IN [top |-> IF s.sd = 1 THEN -M(h) ELSE M(h + s.th), bot |-> IF s.sd = 1 THEN -M(h + s.th) ELSE M(h), lp |-> Loops(s.lp)]
Solids(D) ==
    LET pl == SelectSeq(Placements(D), LAMBDA r : Solid(D, r)) ot == SelectSeq(D.sec, LAMBDA s : s.k = "oth" /\ s.lp # <<>>)
    IN (IF D.bo.lp = <<>> THEN <<>> ELSE <<Board(D)>>) \o [i \in DOMAIN pl |-> Part(D, pl[i])] \o [i \in DOMAIN ot |-> Other(D, ot[i])]
Decided(D) == /\ D.bo.lp # <<>> /\ Clear(D.bo.lp) /\ \A i \in DOMAIN D.sec : Clear(D.sec[i].lp)
              /\ \A i \in DOMAIN D.lib : Clear(D.lib[i].lp) /\ (D.lib[i].th >= 100 \/ D.lib[i].th = 0)
              /\ LET pl == Placements(D) IN \A i \in DOMAIN pl : Known(pl[i].a)
              /\ \A i \in DOMAIN D.sec : D.sec[i].k = "oth" => D.sec[i].th > 0
Convert(D, ev) ==
    LET S == TLCEval(Solids(D))
        C == TLCEval([i \in DOMAIN S |-> { j \in DOMAIN ev.in : IF ev.x > 0 /\ i = 1 THEN MergedDiff(ev.in[j], S[i]) = {} ELSE ShellDiff(ev.in[j], S[i]) = {} }])
    IN IF ev.x = 2 /\ ev.r # 1 THEN {}                                \* curves which cross more than twice may be refused
       ELSE IF ev.r # 1 \/ ev.w # 1 \/ ev.rd # 1 THEN {"refused"}
       ELSE (IF Len(ev.in) # Len(S) THEN {"number of solids"} ELSE {})
            \cup (IF D.bo.lp # <<>> /\ C[1] = {} THEN {"board solid"} \cup (IF ev.x > 0 /\ Len(ev.in) > 0 THEN MergedDiff(ev.in[1], S[1]) ELSE {}) ELSE {})
            \cup (IF \E i \in DOMAIN S : i > 1 /\ C[i] = {} THEN {"placed solid"} ELSE {})
            \cup (IF Len(ev.in) = Len(S) /\ (\A i \in DOMAIN S : C[i] # {}) /\ ~Pair(C, DOMAIN ev.in) THEN {"repeated solid"} ELSE {})
Report(ev, d, D) == PrintT("DIFF " \o ToJson([t |-> ev.t, i |-> ev.i, op |-> ev.op, a |-> <<>>, d |-> d, gotr |-> ev.r, exp |-> D]))
Init == l = 1 /\ P = I!StartB(I!Empty) /\ skip = FALSE
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET ev == Trace[l] IN
           CASE ev.op = "start" -> P' = I!StartB(I!Empty) /\ skip' = FALSE
             [] ev.op = "end" \/ skip -> UNCHANGED <<P, skip>>
             [] ev.op = "lib" -> P' = I!StartL(I!Empty) /\ UNCHANGED skip
             [] ev.op = "nolib" -> P' = [I!StartL(I!Empty) EXCEPT !.m = "ls"] /\ UNCHANGED skip
             [] ev.op = "brd" -> P' = I!ToBoard(I!LibDone(P), TRUE) /\ UNCHANGED skip
             [] ev.op = "ln" -> P' = I!Line2(P, ev) /\ UNCHANGED skip
             [] OTHER -> \E Q \in {I!BoardDone(P)} :
                  IF Q.any \/ (Q.v /\ ~Decided(Q.D)) THEN PrintT("OPEN " \o ToJson([t |-> ev.t, any |-> Q.any, D |-> Q.D])) /\ UNCHANGED <<P, skip>>
                  ELSE \E d \in {IF Q.v THEN TLCEval(Convert(Q.D, ev)) ELSE IF ev.r = 1 \/ ev.w = 1 THEN {"accepted"} ELSE {}} :
                       (d # {} => Report(ev, d, IF Q.v THEN Solids(Q.D) ELSE <<>>)) /\ UNCHANGED <<P, skip>>
Spec == Init /\ [][Next]_<<l, P, skip>>
TraceAccepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
