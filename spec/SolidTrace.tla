---------------------------- MODULE SolidTrace ----------------------------
(* Validates traces of harness/drv_solid (board solids) against Shell.      *)
EXTENDS Merged, Json, IOUtils
VARIABLES l, O, skip, mix
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
K(x) == 1000 * x
SegAt(a, i) == [k |-> IF a[i] = 2 /\ a[i+1] = a[i+3] /\ a[i+2] = a[i+4] THEN 4 ELSE a[i], a |-> <<K(a[i+1]), K(a[i+2])>>, b |-> <<K(a[i+3]), K(a[i+4])>>, c |-> <<K(a[i+5]), K(a[i+6])>>, w |-> a[i+7]]
Outline(a, i) == [j \in 1..a[i] |-> SegAt(a, i + 1 + 8 * (j - 1))]
Circle(x, y, r) == << [k |-> 4, a |-> <<K(x + r), K(y)>>, b |-> <<K(x + r), K(y)>>, c |-> <<K(x), K(y)>>, w |-> 0] >>
Report(ev, d) == PrintT("DIFF " \o ToJson([t |-> ev.t, i |-> ev.i, op |-> ev.op, a |-> ev.a, d |-> d, gotr |-> ev.r]))
Want(ev) == [top |-> K(ev.a[1]), bot |-> K(ev.a[2]), lp |-> O]
Next2(ev) == CASE ev.op = "brd" -> <<Outline(ev.a, 1)>>
               [] ev.op \in {"cut", "xcut"} -> Append(O, Outline(ev.a, 2))
               [] ev.op = "hole" -> Append(O, Circle(ev.a[2], ev.a[3], ev.a[4]))
               [] OTHER -> O
(* every outline the generator states is closed, every cutout lies inside and apart from the others or crosses one curve twice: nothing may be refused *)
Diff(ev) == (IF ev.r # 1 \/ ev.e # 0 THEN {"refused"} ELSE {})
            \cup (IF ev.op = "sol" /\ ev.r = 1 THEN LET w == Want(ev) IN TLCEval(IF mix THEN MergedDiff(ev.f, w) ELSE ShellDiff(ev.f, w)) ELSE {})
Init == l = 1 /\ O = <<>> /\ skip = FALSE /\ mix = FALSE
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET ev == Trace[l] IN
           CASE ev.op = "start" -> O' = <<>> /\ skip' = FALSE /\ mix' = FALSE
             [] ev.op = "end" \/ skip -> UNCHANGED <<O, skip, mix>>
             [] OTHER -> \E d \in {TLCEval(Diff(ev))} :
                  /\ (d # {} => Report(ev, d))
                  /\ O' = Next2(ev) /\ skip' = (d # {}) /\ mix' = (ev.op = "xcut" \/ (mix /\ ev.op # "brd"))      \* a cutout crosses another curve
Spec == Init /\ [][Next]_<<l, O, skip, mix>>
TraceAccepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
