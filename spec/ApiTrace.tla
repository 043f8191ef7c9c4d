----------------------------- MODULE ApiTrace -----------------------------
(* Trace validation of the API layer: the graph (EntityTrace) and the       *)
(* validity, object and parent of every handle after every operation.       *)
EXTENDS EntityTrace, Handles
VARIABLES H, O
NH == 8
NO == 60
HDiff(R, ev) ==
    (IF R.r # WILD /\ R.r # ev.r THEN {"result"} ELSE {})
    \cup ObsDiff(R.S, ev)
    \cup (IF \E h \in 1..NH : R.H[h].k # "" /\ R.H[h].b # ev.h[h] THEN {"handle"} ELSE {})
    \cup (IF \E h \in 1..NH : R.H[h].k = "ent" /\ R.H[h].p # ev.p[h] THEN {"parent model"} ELSE {})
    \cup (IF ev.op \in {"hG", "hW"} /\ ev.g # ev.c THEN {"values"} ELSE {})
    \cup (IF \E i \in 1..NO : (R.O[i].k # "") # (ev.o[i] = 1) THEN {"objects"} ELSE {})
Report2(ev, R, d) ==
    PrintT("DIFF " \o ToJson([t |-> ev.t, i |-> ev.i, op |-> ev.op, a |-> ev.a, d |-> d, expr |-> R.r, gotr |-> ev.r,
        exp |-> <<[i \in {x \in DOMAIN R.S.e : R.S.e[x].k # 0} |-> <<R.S.e[i], Parents(R.S, i)>>], R.S.m, [h \in DOMAIN R.H |-> R.H[h]], { i \in DOMAIN R.O : R.O[i].k # "" }>>]))
AInit == Init /\ H = [h \in 1..NH |-> NoH] /\ O = [i \in 1..NO |-> NoO]
ANext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET ev == Trace[l] IN
       CASE ev.op = "start" -> S' = Empty(ev.a[1], ev.a[2]) /\ skip' = FALSE /\ H' = [h \in 1..NH |-> NoH] /\ O' = [i \in 1..NO |-> NoO]
         [] ev.op = "end" \/ skip -> UNCHANGED <<S, skip, H, O>>
         [] OTHER ->
              \E R \in {IF ev.op \in Takes THEN ApplyTake(S, H, O, ev.op, ev.a, ev.r) ELSE IF OwnedObj(H, O, ev.op, ev.a) THEN ApplyRel(S, H, O, ev.op, ev.a) ELSE ApplyH(S, H, O, ev.op, ev.a)} :
              \E d \in {HDiff(R, ev)} :
              IF d = {} THEN S' = R.S /\ H' = R.H /\ O' = R.O /\ UNCHANGED skip
              ELSE Report2(ev, R, d) /\ skip' = TRUE /\ UNCHANGED <<S, H, O>>
ASpec == AInit /\ [][ANext]_<<S, l, skip, H, O>>
=============================================================================
