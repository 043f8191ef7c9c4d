----------------------------- MODULE GeomTrace -----------------------------
(* Validates traces of harness/drv_geom against the exact geometry.        *)
EXTENDS GeomState, Json, IOUtils
VARIABLES l, Q, skip
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
ToSet(q) == { q[i] : i \in DOMAIN q }
(* an arc that ends where it starts is a circle *)
SegAt(a, i) == [k |-> IF a[i] = 2 /\ a[i+1] = a[i+3] /\ a[i+2] = a[i+4] THEN 4 ELSE a[i], a |-> <<a[i+1], a[i+2]>>, b |-> <<a[i+3], a[i+4]>>, c |-> <<a[i+5], a[i+6]>>, w |-> a[i+7]]
(* ---- approximate predicates on points in thousandths of a unit *)
Near(p, q) == Abs(p[1] - q[1]) <= 1 /\ Abs(p[2] - q[2]) <= 1
At(p, q) == Near(p, <<1000 * q[1], 1000 * q[2]>>)
K(p) == <<1000 * p[1], 1000 * p[2]>>
Sane(p) == Abs(p[1]) <= 20000 /\ Abs(p[2]) <= 20000
L1(v) == Abs(v[1]) + Abs(v[2])
LenOK(len, d2) == len >= 0 /\ len <= 30000 /\ Abs(len * len - d2 * 1000000) <= 3 * len + 9
OnLine(s, p) == LET d == Sub(s.b, s.a) q == Sub(p, K(s.a)) IN
    Abs(Cross(d, q)) <= 2 * L1(d) /\ Dot(d, q) >= -2 * L1(d) /\ Dot(d, q) <= 1000 * Dot(d, d) + 2 * L1(d)
OnCirc(c, r2, p) == LET q == Sub(p, K(c)) IN Abs(Dot(q, q) - 1000000 * r2) <= 4000 * Isqrt(r2, 0) + 9
OnArcSide(s, p) == s.k = 4 \/ LET w == Sub(E0(s), S0(s)) IN Cross(w, Sub(p, K(S0(s)))) <= 2 * L1(w)
OnApprox(s, p) == Sane(p) /\ (IF s.k = 1 THEN OnLine(s, p) ELSE OnCirc(s.c, Rad2(s), p) /\ OnArcSide(s, p))

(* ---- G01 *)
Distinct(ps) == \A i, j \in DOMAIN ps : i < j => L1(Sub(ps[i], ps[j])) > 10
IDiff(ev) ==
    LET s == SegAt(ev.a, 1) t == SegAt(ev.a, 9) c == Common(s, t)
        curved == s.k # 1 /\ t.k # 1
        want == IF c.tan /\ curved THEN 0 ELSE c.n          \* curves that only touch are reported by the flag alone
    IN
    (IF ~(\A p \in ToSet(ev.p) : OnApprox(s, p) /\ OnApprox(t, p)) THEN {"a point that is not common"} ELSE {})
    \cup (IF c.nt THEN {} ELSE
      (IF c.n # INF /\ ev.r # (IF want > 0 THEN 1 ELSE 0) THEN {"result"} ELSE {})
      \cup (IF c.n # INF /\ (Len(ev.p) # want \/ ~Distinct(ev.p)) THEN {"number of points"} ELSE {})
      \cup (IF ~(IF c.n = INF THEN ev.f \in (IF s.k = 4 /\ t.k = 4 THEN {7} ELSE {3, 8})
               ELSE IF s.k = 4 /\ t.k = 4 /\ (c.n = 0 \/ CircleIn(s, t) \/ CircleIn(t, s)) THEN ev.f = (IF CircleIn(s, t) THEN 4 ELSE IF CircleIn(t, s) THEN 5 ELSE 0)
               ELSE IF c.n = 0 THEN ev.f \notin {1, 2, 3, 7, 8}
               ELSE IF c.tan THEN ev.f = 2
               ELSE IF c.e = 0 THEN ev.f = 0
               ELSE IF curved THEN ev.f \in {0, 1, 4, 6}
               ELSE IF c.e = c.n THEN ev.f = 1
               ELSE ev.f \in {0, 1}) THEN {"flag"} ELSE {}))
(* ---- getters of one segment *)
FullDiff(q, s) ==
    LET r2 == Rad2(s) r == q.s[5]
        ext(i) == IF s.k = 1 THEN <<K(s.a)[i], K(s.b)[i]>> ELSE <<0, 0>>
        mx(i) == IF s.a[i] > s.b[i] THEN s.a[i] ELSE s.b[i]
        mn(i) == IF s.a[i] < s.b[i] THEN s.a[i] ELSE s.b[i]
        (* extreme of the arc in a direction: the point of the circle there if the arc reaches it *)
        reach(v) == s.k = 4 \/ (s.k = 2 /\ LET w == Sub(E0(s), S0(s)) IN SgnR(Cross(w, Sub(s.c, S0(s))), Cross(w, v), r2) <= 0)
        (* on the arc's end exactly at the extreme both descriptions agree *)
    IN (IF q.s[1] # s.k THEN {"type"} ELSE {})
    \cup (IF s.k = 4 THEN {} ELSE IF At(q.s[2], s.a) /\ At(q.s[3], s.b) THEN {} ELSE {"ends"})
    \cup (IF s.k = 4 THEN {} ELSE IF At(q.st, S0(s)) /\ At(q.en, E0(s)) THEN {} ELSE {"counterclockwise ends"})
    \cup (IF s.k = 1 THEN {} ELSE IF At(q.s[4], s.c) /\ LenOK(r, r2) THEN {} ELSE {"centre or radius"})
    \cup (IF s.k = 2 /\ q.s[6] # s.w THEN {"direction"} ELSE {})
    \cup (IF q.ok # 1 THEN {"bounding box or midpoint refused"} ELSE {})
    \cup (IF s.k = 1 THEN (IF <<q.bb[1], q.bb[2], q.bb[3], q.bb[4]>> = <<1000 * mn(1), 1000 * mn(2), 1000 * mx(1), 1000 * mx(2)>> THEN {} ELSE {"bounding box"})
          ELSE IF /\ Abs(q.bb[3] - (IF reach(<<1, 0>>) THEN 1000 * s.c[1] + r ELSE 1000 * mx(1))) <= 2
                  /\ Abs(q.bb[1] - (IF reach(<<-1, 0>>) THEN 1000 * s.c[1] - r ELSE 1000 * mn(1))) <= 2
                  /\ Abs(q.bb[4] - (IF reach(<<0, 1>>) THEN 1000 * s.c[2] + r ELSE 1000 * mx(2))) <= 2
                  /\ Abs(q.bb[2] - (IF reach(<<0, -1>>) THEN 1000 * s.c[2] - r ELSE 1000 * mn(2))) <= 2
               THEN {} ELSE {"bounding box"})
    \cup (IF ~Sane(q.mid) THEN {"midpoint"}
          ELSE IF s.k = 1 THEN IF Near(<<2 * q.mid[1], 2 * q.mid[2]>>, <<1000 * (s.a[1] + s.b[1]), 1000 * (s.a[2] + s.b[2])>>) THEN {} ELSE {"midpoint"}
          ELSE IF s.k = 4 THEN IF Abs(q.mid[1] - 1000 * s.c[1] - r) <= 2 /\ Abs(q.mid[2] - 1000 * s.c[2]) <= 1 THEN {} ELSE {"midpoint"}
          ELSE LET ch == Sub(s.b, s.a) q2 == Sub(<<2 * q.mid[1], 2 * q.mid[2]>>, <<1000 * (s.a[1] + s.b[1]), 1000 * (s.a[2] + s.b[2])>>) IN
               IF OnApprox(s, q.mid) /\ Abs(Dot(ch, q2)) <= 4 * L1(ch) THEN {} ELSE {"midpoint"})
    (* length: |ab| for a line, 2 pi r for a circle, r * sweep for an arc; the sweep starts and ends at the stated angles *)
    \cup (IF s.k = 1 THEN IF LenOK(q.len, Dot(Sub(s.b, s.a), Sub(s.b, s.a))) THEN {} ELSE {"length"}
          ELSE IF s.k = 4 THEN IF Abs(q.len - (r * 6283) \div 1000) <= 12 THEN {} ELSE {"length"}
          ELSE IF q.sw > 0 /\ q.sw <= 6284 /\ Abs(q.len - (r * q.sw) \div 1000) <= 12 THEN {} ELSE {"length"})
    \cup (IF s.k # 2 THEN {} ELSE
          LET dirAt(i, p) == Abs((r * q.ang[i][1]) \div 1000 - 1000 * (p[1] - s.c[1])) <= 12 /\ Abs((r * q.ang[i][2]) \div 1000 - 1000 * (p[2] - s.c[2])) <= 12
              half == Cross(Sub(S0(s), s.c), Sub(E0(s), s.c))
          IN IF dirAt(1, S0(s)) /\ dirAt(2, E0(s)) /\ dirAt(3, s.a) /\ dirAt(4, s.b)
                /\ (half > 0 => q.sw < 3141) /\ (half < 0 => q.sw > 3142) /\ (half = 0 => q.sw \in 3140..3143) THEN {} ELSE {"angles"})
(* ---- G02 *)
Points(a, i, n) == [j \in 1..n |-> <<a[i + 2 * j - 2], a[i + 2 * j - 1]>>]
Inner(s, p) == OnSeg(s, p) /\ p \notin Ends(s)
Before(s, p, q) == IF s.k = 1 THEN Dot(Sub(s.b, s.a), Sub(p, q)) < 0 ELSE p # q /\ OnSeg([s EXCEPT !.b = q], p)
Pieces(s, ps) ==
    IF s.k = 4 THEN << [k |-> 2, a |-> ps[2], b |-> ps[1], c |-> s.c, w |-> 0], [k |-> 2, a |-> ps[1], b |-> ps[2], c |-> s.c, w |-> 0] >>
    ELSE LET o == IF Len(ps) = 1 THEN ps ELSE IF Before(s, ps[1], ps[2]) THEN ps ELSE <<ps[2], ps[1]>>
         IN IF Len(ps) = 1 THEN << [s EXCEPT !.b = o[1]], [s EXCEPT !.a = o[1]] >>
            ELSE << [s EXCEPT !.b = o[1]], [s EXCEPT !.a = o[1], !.b = o[2]], [s EXCEPT !.a = o[2]] >>
GoodSplit(s, ps) == /\ \A i \in DOMAIN ps : Inner(s, ps[i])
                    /\ (Len(ps) = 2 => ps[1] # ps[2])
                    /\ (IF s.k = 4 THEN Len(ps) = 2 ELSE Len(ps) \in {1, 2})
SplitDiff(ev) ==
    LET s == SegAt(ev.a, 1) n == ev.a[9] ps == Points(ev.a, 10, n)
        want == Pieces(s, ps)
        RECURSIVE sum(_)
        sum(i) == IF i = 0 THEN 0 ELSE ev.q[i].len + sum(i - 1)
        (* a point that is not on the segment, or too many or too few of them, must be refused *)
        bad == n \notin {1, 2} \/ (s.k = 4 /\ n # 2) \/ (n \in {1, 2} /\ \E i \in DOMAIN ps : ~OnSeg(s, ps[i]))
    IN IF GoodSplit(s, ps)
       THEN IF ev.r # 1 THEN {"refused"}
            ELSE IF Len(ev.q) # Len(want) THEN {"number of pieces"}
            ELSE UNION { FullDiff(ev.q[i], want[i]) : i \in DOMAIN want }
                 \cup (IF Abs(sum(Len(ev.q)) - ev.q0.len) <= 4 THEN {} ELSE {"total length"})
       ELSE (IF bad /\ ev.r = 1 THEN {"accepted"} ELSE {})
            \cup (IF ev.r = 0 /\ (Len(ev.q) # 1 \/ ev.q[1] # ev.q0) THEN {"changed by a refused split"} ELSE {})
(* ---- G03, G04 *)
Sub01(got, want, basic) == \A i \in 1..121 : IF want[i] = 2 THEN (basic => got[i] = 1) ELSE got[i] = want[i]
(* the reported chain: closed, contiguous, counterclockwise *)
ChainOK(sg) == IF Len(sg) = 1 THEN sg[1][1] = 4 ELSE \A i \in DOMAIN sg : Near(sg[i][2], sg[IF i = 1 THEN Len(sg) ELSE i - 1][3])
(* one possible result of an operation on outline o *)
Res(o, r, in, parts, B) == [o EXCEPT !.in = in, !.parts = parts, !.segs = IF r = 1 THEN <<>> ELSE o.segs]
Ops(o, B, sub) ==
    LET h == How(o, B)
        yes == [o EXCEPT !.in = TLCEval(IF sub = 1 THEN Diff(o.in, Region(B)) ELSE Union(o.in, Region(B))), !.parts = Append(o.parts, B), !.sb = IF sub = 1 THEN @ \cup {Len(o.parts) + 1} ELSE @, !.segs = <<>>]
    IN IF h = "two" THEN {[r |-> 1, o |-> yes]}
       ELSE IF h \in {"no", "many"} THEN {[r |-> 0, o |-> o]}
       ELSE {[r |-> 0, o |-> o], [r |-> 1, o |-> yes]}
CutOps(o, B, ov) ==
    LET circ == Len(B) = 1
        push == IF circ THEN [o EXCEPT !.hc = Append(o.hc, B[1])] ELSE [o EXCEPT !.cu = Append(o.cu, [NewOutline EXCEPT !.segs = B, !.closed = TRUE, !.in = Region(B), !.parts = <<B>>])]
        RECURSIVE Merge(_)
        Merge(k) == IF k > Len(o.cu) THEN {[r |-> 1, o |-> push]}
                    ELSE UNION { IF x.r = 1 THEN {[r |-> 1, o |-> [o EXCEPT !.cu[k] = x.o]]}
                                 ELSE (IF How(o.cu[k], B) = "many" THEN {} ELSE Merge(k + 1)) \cup {[r |-> 0, o |-> o]} : x \in Ops(o.cu[k], B, 0) }
    IN IF ov = 0 THEN {[r |-> 1, o |-> push]}
       ELSE UNION { IF x.r = 1 THEN {x} ELSE IF How(o, B) = "many" THEN {x} ELSE Merge(1) \cup {x} : x \in Ops(o, B, 1) }
Basic(o) == Len(o.parts) = 1
HcOK(hc, got) == Len(hc) = Len(got) /\ \A i \in DOMAIN hc : got[i][1] = 4 /\ At(got[i][4], hc[i].c) /\ LenOK(got[i][5], Rad2(hc[i]))
CuOK(cu, got) == Len(cu) = Len(got) /\ \A i \in DOMAIN cu : Sub01(got[i], cu[i].in, Basic(cu[i]))
ODiff(o, ev) ==
    (IF (ev.cl = 1) # o.closed THEN {"closed"} ELSE {})
    \cup (IF o.closed /\ ev.cl = 1 THEN
            (IF ev.co # 1 \/ ~ChainOK(ev.sg) THEN {"contiguous"} ELSE {})
            \cup (IF ev.pe = 1 THEN {"error of the inside test"} ELSE {})
            \cup (IF ~Sub01(ev.in, o.in, Basic(o)) THEN {"inside"} ELSE {})
          ELSE {})
    \cup (IF Len(o.segs) > 0 /\ Len(ev.sg) < Len(o.segs) THEN {"segments"} ELSE {})
    \cup (IF ~HcOK(o.hc, ev.hc) THEN {"holes"} ELSE {})
    \cup (IF ~CuOK(o.cu, ev.cu) THEN {"cutouts"} ELSE {})
Arg(ev) == Q[ev.a[2]].parts[1]
(* the set of allowed results of the event: [r, o] *)
Allowed(ev) ==
    LET o == Q[ev.a[1]] IN
    CASE ev.op = "new" -> {[r |-> 1, o |-> NewOutline]}
      [] ev.op = "probe" -> {[r |-> 1, o |-> o]}
      [] ev.op = "add" -> LET s == SegAt(ev.a, 2) IN {IF CanAdd(o, s) THEN [r |-> 1, o |-> DoAdd(o, s)] ELSE [r |-> 0, o |-> o]}
      [] ev.op = "opo" -> IF ~o.closed \/ ~Q[ev.a[2]].closed THEN {[r |-> 0, o |-> o]} ELSE Ops(o, Arg(ev), ev.a[3])
      [] ev.op = "opc" -> LET s == SegAt(ev.a, 3) IN IF ~o.closed \/ s.k # 4 THEN {[r |-> 0, o |-> o]} ELSE Ops(o, <<s>>, ev.a[2])
      [] ev.op = "cuto" -> IF ~Q[ev.a[2]].closed THEN {[r |-> 0, o |-> o]} ELSE IF ~o.closed /\ ev.a[3] = 1 THEN {[r |-> 0, o |-> o]} ELSE CutOps(o, Arg(ev), ev.a[3])
      [] ev.op = "cutc" -> LET s == SegAt(ev.a, 3) IN IF s.k # 4 \/ (~o.closed /\ ev.a[2] = 1) THEN {[r |-> 0, o |-> o]} ELSE CutOps(o, <<s>>, ev.a[2])
      [] OTHER -> {}
EDiff(x, ev) == (IF x.r # ev.r THEN {"result"} ELSE {}) \cup ODiff(x.o, ev)
    \cup (IF ev.op = "opo" /\ ev.r = 0 /\ x.r = 0 /\ Q[ev.a[2]].closed /\ ~Sub01(ev.pb, Q[ev.a[2]].in, Basic(Q[ev.a[2]])) THEN {"the argument changed"} ELSE {})
    \cup (IF ev.op = "opo" /\ x.r = 0 /\ ev.r = 0 /\ ev.e = 0 /\ Q[ev.a[1]].closed /\ Q[ev.a[2]].closed /\ How(Q[ev.a[1]], Arg(ev)) = "many" THEN {"no error reported"} ELSE {})
(* ---- the machine *)
Report(ev, d, e) == PrintT("DIFF " \o ToJson([t |-> ev.t, i |-> ev.i, op |-> ev.op, a |-> ev.a, d |-> d, exp |-> e, got |-> ev.r]))
Fresh == [q \in 1..6 |-> NoOutline]
Init == l = 1 /\ Q = Fresh /\ skip = FALSE
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET ev == Trace[l] IN
       CASE ev.op = "start" -> Q' = Fresh /\ skip' = FALSE
         [] ev.op = "end" \/ skip -> UNCHANGED <<Q, skip>>
         [] ev.op = "isect" -> \E d \in {IDiff(ev)} : (d # {} => Report(ev, d, Common(SegAt(ev.a, 1), SegAt(ev.a, 9)))) /\ UNCHANGED <<Q, skip>>
         [] ev.op = "mk" -> \E d \in {IF (ev.r = 1) # ValidSeg(SegAt(ev.a, 1)) THEN {"result"} ELSE IF ev.r = 1 THEN FullDiff(ev.q, SegAt(ev.a, 1)) ELSE {}} :
                              (d # {} => Report(ev, d, 0)) /\ UNCHANGED <<Q, skip>>
         [] ev.op = "split" -> \E d \in {SplitDiff(ev)} : (d # {} => Report(ev, d, 0)) /\ UNCHANGED <<Q, skip>>
         [] OTHER ->
              \E X \in {Allowed(ev)} :
              \E D \in {{ [x |-> x, d |-> EDiff(x, ev)] : x \in X }} :
              IF \E y \in D : y.d = {}
              THEN LET y == CHOOSE y \in D : y.d = {} IN
                   /\ Q' = [Q EXCEPT ![ev.a[1]] = y.x.o, ![IF ev.op \in {"opo", "cuto"} /\ ev.r = 1 THEN ev.a[2] ELSE 6] = NoOutline]
                   /\ UNCHANGED skip
              ELSE Report(ev, UNION { y.d : y \in D }, { y.x.r : y \in D }) /\ skip' = TRUE /\ UNCHANGED Q
Spec == Init /\ [][Next]_<<l, Q, skip>>
TraceAccepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
