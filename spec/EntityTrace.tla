---------------------------- MODULE EntityTrace ----------------------------
(* Trace validation: every recorded operation of the real library must be  *)
(* the specification's Apply of the same operation, with the same result   *)
(* and the same observable entity graph afterwards.  A file holds many     *)
(* traces ("start" resets).  A mismatch is printed and the rest of that    *)
(* trace is skipped; the others are still checked.                         *)
EXTENDS EntityGraph, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, l, skip

ObsDiff(T, ev) ==
    LET n == Len(ev.e)
        live(i) == T.e[i].k # 0 /\ ev.e[i].k # 0
        bad(P(_)) == \E i \in 1..n : live(i) /\ ~P(i)
        par(i) == Range(ev.e[i].r) = Parents(T, i) /\ Len(ev.e[i].r) = Cardinality(Parents(T, i))
        lnk(i) == LET r == T.e[i] g == ev.e[i] IN r.x = g.x /\ r.c = g.c /\ r.e = g.e /\ r.s = g.s /\ r.l = g.l
        own(i) == T.e[i].o = ev.e[i].o
        att(i) == LET r == T.e[i] IN
                  (IF r.c # 0 /\ Len(r.a) >= 5 THEN [r.a EXCEPT ![5] = -1] ELSE r.a) = ev.e[i].a
        crv(i) == ZOf(T, i) = ev.e[i].z IN
    (IF \E i \in 1..n : T.e[i].k # ev.e[i].k THEN {"alive"} ELSE {})
    \cup (IF bad(par) THEN {"parents"} ELSE {})
    \cup (IF bad(lnk) THEN {"links"} ELSE {})
    \cup (IF bad(own) \/ T.m # ev.m THEN {"owner"} ELSE {})
    \cup (IF bad(att) THEN {"attr"} ELSE {})
    \cup (IF bad(crv) THEN {"curve"} ELSE {})

Diff(R, ev) ==
    (IF R.r # WILD /\ R.r # ev.r THEN {"result"} ELSE {})
    \cup (IF ev.op = "alg" /\ ev.v # Alg(MatOf(R.S, ev.a[1]), MatOf(R.S, ev.a[2]), ev.a[3], <<ev.a[4], ev.a[5], ev.a[6]>>, <<ev.a[7], ev.a[8], ev.a[9]>>) THEN {"algebra"} ELSE {})
    \cup (IF "e" \in DOMAIN ev THEN ObsDiff(R.S, ev) ELSE {})

Report(ev, R, d) ==
    PrintT("DIFF " \o ToJson([t |-> ev.t, i |-> ev.i, op |-> ev.op, a |-> ev.a, d |-> d,
        expr |-> R.r, gotr |-> ev.r,
        exp |-> [i \in {x \in DOMAIN R.S.e : "e" \in DOMAIN ev /\ x <= Len(ev.e)} |->
                   IF R.S.e[i].k = 0 THEN <<0>> ELSE <<R.S.e[i], Parents(R.S, i), ZOf(R.S, i)>>],
        expm |-> R.S.m]))

AdoptAttr(T, ev) ==
    [T EXCEPT !.e = [i \in DOMAIN T.e |->
        IF i <= Len(ev.e) /\ T.e[i].k # 0 /\ ev.e[i].k # 0
        THEN [T.e[i] EXCEPT !.a = IF T.e[i].c # 0 THEN [ev.e[i].a EXCEPT ![5] = 0] ELSE ev.e[i].a] ELSE T.e[i]]]

Init == S = Empty(1, 1) /\ l = 1 /\ skip = FALSE
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET ev == Trace[l] IN
       CASE ev.op = "start" -> S' = Empty(ev.a[1], ev.a[2]) /\ skip' = FALSE
         [] ev.op = "end" \/ skip -> UNCHANGED <<S, skip>>
         [] OTHER ->
              \E R0 \in {Apply(S, ev.op, ev.a)} :
              \* a Write normalises attributes which a kind fixes: adopted here, judged by F02/F05
              \E R \in {IF ev.op = "write" THEN [R0 EXCEPT !.S = AdoptAttr(R0.S, ev)] ELSE R0} :
              \E d \in {Diff(R, ev)} :
              IF d = {} THEN S' = R.S /\ UNCHANGED skip
              ELSE Report(ev, R, d) /\ skip' = TRUE /\ UNCHANGED S
Spec == Init /\ [][Next]_<<S, l, skip>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
