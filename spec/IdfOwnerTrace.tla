-------------------------- MODULE IdfOwnerTrace --------------------------
EXTENDS IdfOwner, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, l, skip
ObsO(o) == <<o.k, o.own, o.th, o.sd, o.nm, o.lp>>
ObsC(c) == <<c.st, c.ref, c.pl, c.pos, c.dr, c.of>>
Diff(R, ev) ==
    (IF R.r # ev.r THEN {"result"} ELSE {})
    \cup (IF \E i \in 1..NOB : ObsO(R.S.o[i]) # ev.o[i] THEN {"outline"} ELSE {})
    \cup (IF R.S.d # ev.d THEN {"drills"} ELSE {})
    \cup (IF \E i \in 1..NCO : (R.S.c[i].st \in {1, 2} /\ ObsC(R.S.c[i]) # ev.c[i]) \/ R.S.c[i].st # ev.c[i][1] THEN {"component"} ELSE {})
Report(ev, R, d) == PrintT("DIFF " \o ToJson([t |-> ev.t, i |-> ev.i, op |-> ev.op, a |-> ev.a, d |-> d, expr |-> R.r, gotr |-> ev.r,
    exp |-> <<[i \in 1..NOB |-> ObsO(R.S.o[i])], R.S.d, [i \in 1..NCO |-> ObsC(R.S.c[i])]>>]))
Init == S = Start(0) /\ l = 1 /\ skip = FALSE
Next ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET ev == Trace[l] IN
       CASE ev.op = "start" -> S' = Start(ev.a[1]) /\ skip' = FALSE
         [] ev.op = "end" \/ skip -> UNCHANGED <<S, skip>>
         [] OTHER -> \E R \in {Apply(S, ev.op, ev.a)} : \E d \in {Diff(R, ev)} :
              IF d = {} THEN S' = R.S /\ UNCHANGED skip ELSE Report(ev, R, d) /\ skip' = TRUE /\ UNCHANGED S
Spec == Init /\ [][Next]_<<S, l, skip>>
TraceAccepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
