----------------------------- MODULE IdfTrace -----------------------------
(* Validates recorded traces of the IDF classes: every line of every file  *)
(* read or written is one transition of the grammar of IdfFile.            *)
EXTENDS IdfFile, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, P, cad, l, skip
\* b5 dumps (public state) against the board
Seg(s) == s
DrD(d) == d
EqLoops(a, b) == a = b
NearOf(a, b) == a[1] = b[1] /\ a[2] = b[2] /\ (\A i \in 3..5 : Near(a[i], b[i], 1)) /\ Near(a[6], b[6], 1)
Dump(R, ev) ==
    LET oth == SelectSeq(R.sec, LAMBDA x : x.k = "oth")
        OW(a, b) == <<a.nm, a.own, a.th, a.sd, a.lp>> = b
        CW(a, b) == a.ref = b[1] /\ a.pl = b[2] /\ a.pos = b[3] /\ a.dr = b[4] /\ Len(a.of) = Len(b[5]) /\ \A i \in DOMAIN a.of : NearOf(a.of[i], b[5][i])
        LW(a, b) == a.g = b[1] /\ a.p = b[2] /\ (a.def \/ (a.cl = b[3] /\ a.th = b[4] /\ a.u = b[5] /\ a.lp = b[6])) IN
    (IF R.u # ev.u \/ R.nm # ev.nm \/ R.bs # ev.bs \/ R.bv # ev.bv \/ R.ls # ev.ls \/ R.lv # ev.lv THEN {"header"} ELSE {})
    \cup (IF (R.th /\ R.bo.th # ev.th) \/ R.bo.own # ev.own \/ R.bo.lp # ev.lp \/ R.bo.cm # ev.cm THEN {"board outline"} ELSE {})
    \cup (IF ~SameSet(oth, ev.oth, OW) THEN {"other outlines"} ELSE {})
    \cup (IF R.dr # ev.dr THEN {"holes"} ELSE {})
    \cup (IF ~SameSet(R.cp, ev.cp, CW) THEN {"components"} ELSE {})
    \cup (IF ~SameSet(R.lib, ev.lib, LW) THEN {"parts"} ELSE {})
Match(own) == own = UNOWNED \/ own = (IF cad = 1 THEN 1 ELSE 2)
May(c) == c.pl \in {0, 1, UNSET} \/ (c.pl = 2 /\ cad = 1) \/ (c.pl = 3 /\ cad = 0)
Del(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Rect(x, y, w, cw) == LET q == IF cw THEN <<<<x, y>>, <<x, y + w>>, <<x + w, y + w>>, <<x + w, y>>>> ELSE <<<<x, y>>, <<x + w, y>>, <<x + w, y + w>>, <<x, y + w>>>> IN
    [i \in 1..4 |-> q[i] \o q[(i % 4) + 1] \o <<0>>]
Round(x, y, w) == << <<x, y, x + w, y, 0>>, <<x + w, y, x + w, y + w, 180000>>, <<x + w, y + w, x, y + w, 0>>, <<x, y + w, x, y, 90000>> >>
NewLoop(k, x, y, w) == CASE k \in {0, 1} -> Rect(x, y, w, k = 1) [] k = 2 -> << <<x, y, x + w, y, 360000>> >> [] OTHER -> Round(x, y, w)
K == 100000
No == [r |-> 0, S |-> S]
Do(c, T) == IF c THEN [r |-> 1, S |-> T] ELSE No
Apply(op, a) ==
    LET i == IF op \in {"xs", "xp", "xo", "xd", "xr"} /\ CIx(S, a[1]) # {} THEN AtC(S, a[1]) ELSE 0 IN
    CASE op = "bn" -> Do(TRUE, [S EXCEPT !.nm = a[1]])
      [] op = "sr" -> Do(TRUE, [S EXCEPT !.src = a[1]])
      [] op = "bth" -> Do(a[1] > 0 /\ Match(S.bo.own), [S EXCEPT !.bo.th = a[1] * 100, !.th = TRUE])
      [] op = "bo" -> Do(Match(S.bo.own), [S EXCEPT !.bo.lp = Append(@, NewLoop(a[1], a[2] * K, a[3] * K, a[4] * K))])
      [] op = "bdh" -> Do(TRUE, [S EXCEPT !.dr = Append(@, <<a[1] * 100, a[2] * K, a[3] * K, 0, "BOARD", "MTG", a[4]>>)])
      [] op = "xn" -> Do(CIx(S, a[1]) = {}, WithComp(S, a[1]))
      [] op = "xs" -> Do(i # 0 /\ May(S.cp[i]) /\ S.cp[i].pos = <<>>, [S EXCEPT !.cp[i].pos = <<a[2] * K, a[3] * K, a[4] * 1000, a[5]>>])
      [] op = "xp" -> Do(i # 0 /\ May(S.cp[i]), [S EXCEPT !.cp[i].pl = a[2]])
      [] op = "xd" -> Do(i # 0, [S EXCEPT !.cp[i].dr = Append(@, <<a[2] * 100, a[3] * K, a[4] * K, 0, a[1], "PIN", a[5]>>)])
      [] op = "xo" -> Do(i # 0 /\ InLib(S, a[2], a[3]), [S EXCEPT !.cp[i].of = Append(@, <<a[2], a[3], a[4] * K, a[5] * K, a[6] * K, a[7] * 1000>>)])
      [] op = "xr" -> Do(i # 0 /\ May(S.cp[i]), [S EXCEPT !.cp = Del(@, i)])
      [] op = "clear" -> Do(TRUE, [Empty EXCEPT !.th = FALSE])
      [] op = "fresh" -> Do(TRUE, Empty1)
      [] OTHER -> No
Report(ev, d, e) == PrintT("DIFF " \o ToJson([t |-> ev.t, i |-> ev.i, op |-> ev.op, a |-> IF "a" \in DOMAIN ev THEN ev.a ELSE <<>>, d |-> d, expr |-> e, gotr |-> ev.r,
    mode |-> P.m, dec |-> P.D, exp |-> S]))
Init == S = Empty1 /\ P = StartB(Empty) /\ cad = 0 /\ l = 1 /\ skip = FALSE
Next ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET ev == Trace[l] IN
       CASE ev.op = "start" -> S' = Empty1 /\ P' = StartB(Empty) /\ cad' = ev.a[1] /\ skip' = FALSE
         [] skip /\ ev.op \in {"clear", "fresh"} -> S' = Apply(ev.op, <<>>).S /\ skip' = FALSE /\ UNCHANGED <<P, cad>>
         [] ev.op = "end" \/ skip -> UNCHANGED <<S, P, cad, skip>>
         [] ev.op = "lib" -> P' = StartL(Empty) /\ UNCHANGED <<S, cad, skip>>      \* a library file starts
         [] ev.op = "nolib" -> P' = [StartL(Empty) EXCEPT !.m = "ls"] /\ UNCHANGED <<S, cad, skip>>
         [] ev.op = "brd" -> P' = ToBoard(LibDone(P), ev.nosub = 1) /\ UNCHANGED <<S, cad, skip>>
         [] ev.op = "ln" -> P' = Line2(P, ev) /\ UNCHANGED <<S, cad, skip>>
         [] ev.op = "rd" ->
              \E Q \in {BoardDone(P)} :
              IF Q.any THEN PrintT("OPEN") /\ (IF ev.r = 1 THEN skip' = TRUE /\ UNCHANGED S ELSE skip' = FALSE /\ S' = [Empty EXCEPT !.th = FALSE]) /\ UNCHANGED <<P, cad>>
              ELSE \E R \in {IF Q.v THEN [Q.D EXCEPT !.src = S.src] ELSE [Empty EXCEPT !.th = FALSE]} : \E d \in {(IF ev.r # (IF Q.v THEN 1 ELSE 0) THEN {"result"} ELSE {}) \cup Dump(R, ev)} :
                   /\ UNCHANGED <<P, cad>>
                   /\ IF d = {} THEN S' = R /\ UNCHANGED skip ELSE Report(ev, d, IF Q.v THEN 1 ELSE 0) /\ skip' = TRUE /\ UNCHANGED S
         [] ev.op = "wr" ->
              \E Q \in {BoardDone(P)} : \E u \in {IF ev.a[2] = 1 THEN MM ELSE THOU} :
              \E R \in {[S EXCEPT !.u = u, !.bv = @ + 1, !.lv = @ + 1, !.lib = IF ev.a[3] = 1 THEN [j \in DOMAIN S.lib |-> [S.lib[j] EXCEPT !.u = u]] ELSE S.lib]} :
              IF Fails(S) THEN (IF ev.r = 1 THEN Report(ev, {"result"}, 0) ELSE TRUE) /\ skip' = TRUE /\ UNCHANGED <<S, P, cad>>
              ELSE \E d \in {IF ev.r # 1 THEN {"result"} ELSE IF Q.any \/ ~Q.v THEN {"file not legal"} ELSE Written(S, Q.D, u, ev.a[3] = 1) \cup { "after: " \o x : x \in Dump(R, [ev EXCEPT !.bd = "", !.lp = S.bo.lp]) }} :
                   /\ UNCHANGED <<P, cad>>
                   /\ IF d = {} THEN S' = R /\ UNCHANGED skip ELSE Report(ev, d, 1) /\ skip' = TRUE /\ UNCHANGED S
         [] OTHER -> \E R \in {Apply(ev.op, ev.a)} : \E d \in {(IF R.r # ev.r THEN {"result"} ELSE {}) \cup Dump(R.S, ev)} :
              /\ UNCHANGED <<P, cad>>
              /\ IF d = {} THEN S' = R.S /\ UNCHANGED skip ELSE Report(ev, d, R.r) /\ skip' = TRUE /\ UNCHANGED S
Spec == Init /\ [][Next]_<<S, P, cad, l, skip>>
\* every board the grammar accepts is well formed: loops are closed, identifiers and parts distinct, placements legal
Closed(lp) == \A i \in DOMAIN lp : Circle(lp[i]) \/ (Len(lp[i]) > 0 /\ \A j \in DOMAIN lp[i] : LET n == lp[i][(j % Len(lp[i])) + 1] IN lp[i][j][3] = n[1] /\ lp[i][j][4] = n[2])
WellFormed ==
    (P.v /\ ~P.any) =>
        /\ Closed(P.D.bo.lp) /\ \A i \in DOMAIN P.D.sec : Closed(P.D.sec[i].lp)
        /\ \A i \in DOMAIN P.D.lib : Closed(P.D.lib[i].lp)
        /\ \A i, j \in DOMAIN P.D.lib : i # j => <<P.D.lib[i].g, P.D.lib[i].p>> # <<P.D.lib[j].g, P.D.lib[j].p>>
        /\ \A i, j \in DOMAIN P.D.cp : i # j => P.D.cp[i].ref # P.D.cp[j].ref
        /\ \A i \in DOMAIN P.D.cp : P.D.cp[i].of # <<>> => P.D.cp[i].pos[4] \in {0, 1} /\ P.D.cp[i].pl \in 0..3
TraceAccepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
