---------------------------- MODULE EntityGraph ----------------------------
(***************************************************************************)
(* The entity graph of libIGES: entities of the supported kinds, the links *)
(* they hold, the models which own them, and the effect of every public    *)
(* operation.  One action (operator Apply) per API call return.            *)
(*                                                                         *)
(* A state is a record [e |-> sequence of entity records (the index is the *)
(* entity id), m |-> sequence of models (each the sequence of owned ids, or*)
(* <<-1>> for a destroyed model)].  Links are stored at the parent only:   *)
(* "c counts p as its parent" is DERIVED (Parents), so property E01 is     *)
(* what the binding compares the implementation's stored back references   *)
(* against.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(q)    == { q[i] : i \in DOMAIN q }
Rem(q, v)   == SelectSeq(q, LAMBDA y : y # v)
IndexOf(q, v) == CHOOSE i \in DOMAIN q : q[i] = v
Del(q, i)   == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

Dead == [k |-> 0, o |-> 0, x |-> 0, c |-> 0, e |-> <<>>, s |-> <<0, 0, 0>>, l |-> <<>>, a |-> <<>>, g |-> <<>>]

Curves      == {100, 102, 104, 110, 126}
GeomKinds   == {100, 102, 104, 110, 120, 122, 126, 128, 142, 144, 154, 164, 180, 308, 408}
Surfaces144 == {106, 108, 114, 118, 120, 122, 128, 140, 143, 190, 192, 194, 196, 198}
Solids180   == {150, 152, 154, 156, 158, 160, 162, 164, 168, 180, 186, 430}
OptKinds    == {402, 406, 212, 312}

\* default geometry in thousandths: curves <<start xyz, end xyz, centre xy>>, transforms <<rows of R | T>>
PX == <<0, 1000, 0, 6000, 3000>>
PY == <<0, 0, 1000, 0, 4000>>
Ident == <<1, 0, 0, 0,  0, 1, 0, 0,  0, 0, 1, 0>>
DefG(k, a, b) ==
    CASE k = 100 -> <<6000, 0, 0, 6000, 0, 0, 5000, 0>>
      [] k \in {110, 126} -> <<PX[a+1], PY[a+1], 0, PX[b+1], PY[b+1], 0, 0, 0>>
      [] k = 104 -> <<2000, 0, 0, 0, 1000, 0, 0, 0>>
      [] k = 124 -> Ident
      [] OTHER -> <<>>
SetPt(k, v) ==   \* what setting the end points v of a curve of kind k leaves
    CASE k = 100 -> <<v[1], v[2], v[3], v[4], v[5], v[3], v[1] - 1000, v[2]>>
      [] k = 104 -> <<v[1], v[2], v[3], v[4], v[5], v[3], 0, 0>>
      [] OTHER   -> <<v[1], v[2], v[3], v[4], v[5], v[6], 0, 0>>
DefA(k) == \* dep, use, hier, vis, color, level, lineweight, subscript, line font, form
    CASE k = 104 -> <<0, 0, 0, 1, 0, 0, 0, 0, 0, 1>>
      [] k = 314 -> <<0, 0, 0, 1, 2, 0, 0, 0, 0, 0>>
      [] k = 406 -> <<0, 0, 0, 1, 0, 0, 0, 0, 0, 15>>
      [] OTHER   -> <<0, 0, 0, 1, 0, 0, 0, 0, 0, 0>>

Links(r)      == ({r.x, r.c} \cup Range(r.e) \cup Range(r.s) \cup { y \in Range(r.l) : y > 0 }) \ {0}
Live(S)       == { i \in DOMAIN S.e : S.e[i].k # 0 }
Parents(S, c) == { p \in Live(S) : c \in Links(S.e[p]) }

Empty(nm, ne) == [e |-> [i \in 1..ne |-> Dead], m |-> [i \in 1..nm |-> <<>>], u |-> [i \in 1..nm |-> 0]]

(***************************** models ************************************)
AddEnt(S, m, e) ==
    IF e \in Range(S.m[m]) THEN S
    ELSE LET S1 == IF S.e[e].o # 0 THEN [S EXCEPT !.m[S.e[e].o] = Rem(@, e)] ELSE S
         IN  [S1 EXCEPT !.m[m] = Append(@, e), !.e[e].o = m]
\* a link setter pulls the child into the parent's model
Pull(S, p, c) == IF S.e[p].o # 0 /\ S.e[p].o # S.e[c].o THEN AddEnt(S, S.e[p].o, c) ELSE S

(******************* transforms, points and curves ************************)
\* x, y, z rows of R (integers) with T (thousandths): apply to a point, and m after n
Row(t, i) == <<t[4*i - 3], t[4*i - 2], t[4*i - 1], t[4*i]>>
Xf(t, p) == [i \in 1..3 |-> LET w == Row(t, i) IN w[1]*p[1] + w[2]*p[2] + w[3]*p[3] + w[4]]
Mul(m, n) ==
    LET c(j) == [i \in 1..3 |-> LET w == Row(m, i) IN w[1]*n[j] + w[2]*n[4+j] + w[3]*n[8+j]]
        t == Xf(m, <<n[4], n[8], n[12]>>) IN
    <<c(1)[1], c(2)[1], c(3)[1], t[1],  c(1)[2], c(2)[2], c(3)[2], t[2],  c(1)[3], c(2)[3], c(3)[3], t[3]>>
\* sum, difference and multiple of transforms, as listed by the driver
Alg(m, n, k, p, q) ==
    Mul(m, n) \o Mul(m, n) \o [i \in 1..12 |-> k * m[i]] \o [i \in 1..12 |-> k * m[i]]
    \o [i \in 1..12 |-> IF i % 4 = 0 THEN n[i] ELSE m[i] + n[i]] \o [i \in 1..12 |-> IF i % 4 = 0 THEN n[i] ELSE m[i] - n[i]]
    \o Xf(m, p) \o [i \in 1..3 |-> p[i] + q[i]] \o [i \in 1..3 |-> p[i] - q[i]] \o [i \in 1..3 |-> k * p[i]]
\* T01: the transform of x is applied after the one which refers to it
RECURSIVE MatOf(_, _)
MatOf(S, t) == IF S.e[t].x = 0 THEN S.e[t].g ELSE Mul(MatOf(S, S.e[t].x), S.e[t].g)
Place(S, i, x, p) == IF x /\ S.e[i].x # 0 THEN Xf(MatOf(S, S.e[i].x), p) ELSE p
RECURSIVE End(_, _, _, _)
\* the start (w = 1) or end (w = 2) point, with (x) or without transforms; <<>> if there is none
End(S, i, w, x) ==
    LET r == S.e[i] IN
    IF r.k = 102 THEN
        IF r.l = <<>> THEN <<>>
        ELSE LET p == End(S, IF w = 1 THEN r.l[1] ELSE r.l[Len(r.l)], w, x) IN
             IF p = <<>> THEN <<>> ELSE Place(S, i, x, p)
    ELSE Place(S, i, x, SubSeq(r.g, 3*w - 2, 3*w))
\* two points count as one within the model's minimum resolution (an entity without a model: 0.001)
Sq(n) == n * n
MRes(S, o) == IF o = 0 THEN 1 ELSE S.u[o]
Match(p, q, r) == 
    LET d(i) == p[i] - q[i] IN
    /\ \A i \in 1..3 : d(i) < 20000 /\ d(i) > -20000       \* resolutions in use are far below this
    /\ LET dd == Sq(d(1)) + Sq(d(2)) + Sq(d(3)) IN dd <= 3 * r * r + (r * r) \div 10000
Closed(S, i) ==
    LET r == S.e[i] res == MRes(S, r.o) IN
    CASE r.k = 100 -> /\ ~Match(<<r.g[7], r.g[8], 0>>, <<r.g[1], r.g[2], 0>>, res)
                      /\ Match(<<r.g[1], r.g[2], 0>>, <<r.g[4], r.g[5], 0>>, res)
      [] r.k = 104 -> r.g[1] = r.g[4] /\ r.g[2] = r.g[5]
      [] r.k = 102 -> /\ r.l # <<>>
                      /\ (Len(r.l) > 1 \/ S.e[r.l[1]].k = 100)
                      /\ LET p == End(S, r.l[1], 1, TRUE) q == End(S, r.l[Len(r.l)], 2, TRUE) IN
                         p # <<>> /\ q # <<>> /\ Match(p, q, res)
      [] OTHER -> FALSE
\* what is observed of a curve (closed, end points placed and not placed) and of a transform (its matrix)
ZOf(S, i) ==
    LET r == S.e[i] b == IF Closed(S, i) THEN 1 ELSE 0 IN
    IF r.k = 124 THEN MatOf(S, i)
    ELSE IF r.k \notin Curves THEN <<>>
    ELSE <<b>> \o End(S, i, 1, TRUE) \o End(S, i, 2, TRUE) \o End(S, i, 1, FALSE) \o End(S, i, 2, FALSE)

(****************************** links ************************************)
SlotChildren(r) ==      \* the links which a kind refuses to see as its own parent
    CASE r.k \in {122, 142, 144, 164, 308, 408} -> (Range(r.s) \cup Range(r.l)) \ {0}
      [] r.k = 180 -> { y \in Range(r.l) : y > 0 }
      [] OTHER -> {}
\* entities reached from c through nested subfigures, transforms reached through a chain of transforms
RECURSIVE Inside(_, _)
Inside(S, c) ==
    LET r == S.e[c] IN
    CASE r.k = 124 -> IF r.x = 0 THEN {} ELSE {r.x} \cup Inside(S, r.x)
      [] r.k = 308 -> Range(r.l) \cup UNION { IF S.e[y].k \in {308, 408} THEN Inside(S, y) ELSE {} : y \in Range(r.l) }
      [] r.k = 408 -> IF r.s[1] = 0 THEN {} ELSE {r.s[1]} \cup Inside(S, r.s[1])
      [] OTHER -> {}
\* may c take p as a further parent?
AddRef(S, p, c) ==
    LET r == S.e[c] IN
    IF \/ p = c \/ p \in {r.x, r.c} \/ p \in SlotChildren(r)
       \/ (r.k = 102 /\ S.e[p].k = 102) \/ (r.k \in {124, 308, 408} /\ p \in Inside(S, c)) THEN "refuse"
    ELSE IF p \in Parents(S, c) \/ p \in Range(r.e) THEN "dup"
    ELSE "ok"
SetDep(S, c) == IF S.e[c].k \in {124, 314} THEN S ELSE [S EXCEPT !.e[c].a[1] = 1]
Res(r, S) == [r |-> r, S |-> S]

\* release slot i of p and then link c into it; dep: the child becomes physically dependent
Relink(S, p, i, c, dep) ==
    LET S1 == [S EXCEPT !.e[p].s[i] = 0] IN
    IF AddRef(S1, p, c) # "ok" THEN Res(0, S1)
    ELSE LET S2 == [S1 EXCEPT !.e[p].s[i] = c] IN
         Res(1, Pull(IF dep THEN SetDep(S2, c) ELSE S2, p, c))

SetLink(S, p, i, c) ==
    LET k == S.e[p].k
        kc == IF c = 0 THEN 0 ELSE S.e[c].k
        null == Res(1, [S EXCEPT !.e[p].s[i] = 0])
        none == Res(0, S) IN
    IF i = 8 THEN
        IF k \in {314, 406} THEN Res(1, S)
        ELSE LET S1 == [S EXCEPT !.e[p].x = 0] IN
             IF c = 0 THEN Res(1, S1)
             ELSE IF kc # 124 \/ AddRef(S1, p, c) # "ok" THEN Res(0, S1)
             ELSE Res(1, Pull([S1 EXCEPT !.e[p].x = c], p, c))
    ELSE IF i = 9 THEN
        IF k \in {124, 314, 406} THEN Res(1, S)
        ELSE LET S1 == [S EXCEPT !.e[p].c = 0, !.e[p].a[5] = 0] IN
             IF c = 0 THEN Res(1, S1)
             ELSE IF kc # 314 \/ AddRef(S1, p, c) # "ok" THEN Res(0, S1)
             ELSE Res(1, Pull([S1 EXCEPT !.e[p].c = c], p, c))
    ELSE IF k = 120 THEN
        IF c = 0 \/ kc \notin Curves \/ (i = 1 /\ kc # 110) THEN none ELSE Relink(S, p, IF i = 1 THEN 1 ELSE 2, c, TRUE)
    ELSE IF k = 122 THEN
        IF c = 0 THEN Res(1, [S EXCEPT !.e[p].s[1] = 0])
        ELSE IF kc \notin Curves THEN none ELSE Relink(S, p, 1, c, TRUE)
    ELSE IF k = 142 THEN
        IF c = 0 THEN null ELSE Relink(S, p, i, c, TRUE)
    ELSE IF k = 144 THEN
        IF i = 1 THEN
            IF c = 0 THEN null
            ELSE IF kc \notin Surfaces144 THEN Res(0, [S EXCEPT !.e[p].s[1] = 0])
            ELSE Relink(S, p, 1, c, TRUE)
        ELSE IF c = 0 THEN Res(1, [S EXCEPT !.e[p].s[2] = 0])
        ELSE IF kc # 142 THEN none ELSE Relink(S, p, 2, c, TRUE)
    ELSE IF k = 164 THEN
        IF c = 0 \/ kc \notin Curves THEN none
        ELSE IF ~Closed(S, c) THEN none
        ELSE Relink(S, p, 1, c, TRUE)
    ELSE IF k = 408 THEN
        IF c = 0 THEN Res(1, [S EXCEPT !.e[p].s[1] = 0])
        ELSE IF kc # 308 THEN none ELSE Relink(S, p, 1, c, FALSE)
    ELSE none

AppLink(S, p, c) ==
    LET k == S.e[p].k
        kc == IF c = 0 THEN 0 ELSE S.e[c].k
        none == Res(0, S)
        Push(dep, T) == LET S1 == [T EXCEPT !.e[p].l = Append(@, c)] IN Res(1, Pull(IF dep THEN SetDep(S1, c) ELSE S1, p, c)) IN
    IF c = 0 THEN none
    ELSE IF k = 102 THEN
        IF kc \notin Curves \ {102} \/ (S.e[p].l # <<>> /\ Closed(S, p)) THEN none
        ELSE LET q == AddRef(S, p, c) IN
             IF q = "refuse" THEN none ELSE IF q = "dup" THEN Res(1, Pull(S, p, c)) ELSE Push(TRUE, S)
    ELSE IF k = 144 THEN
        IF kc # 142 THEN none
        ELSE IF c \in Range(S.e[p].l) THEN Res(1, S)
        ELSE IF AddRef(S, p, c) # "ok" THEN none ELSE Push(TRUE, S)
    ELSE IF k = 180 THEN
        IF kc \notin Solids180 \/ AddRef(S, p, c) # "ok" THEN none ELSE Push(FALSE, S)
    ELSE IF k = 308 THEN
        LET r == S.e[p] IN
        IF c \in {r.x, r.c} \/ c \in Parents(S, p) \/ c \in Range(r.e) THEN none
        ELSE IF c \in Range(r.l) THEN Res(1, S)
        ELSE IF AddRef(S, p, c) # "ok" THEN none ELSE Push(TRUE, S)
    ELSE none

RemLink(S, p, c) ==
    IF S.e[p].k \in {144, 308} /\ c # 0 /\ c \in Range(S.e[p].l)
    THEN Res(1, [S EXCEPT !.e[p].l = Rem(@, c)]) ELSE Res(0, S)

AddOpt(S, p, c) ==
    IF c = 0 \/ (c # 0 /\ S.e[c].k \notin OptKinds) THEN Res(0, S)
    ELSE IF AddRef(S, p, c) # "ok" THEN Res(0, S)
    ELSE Res(1, Pull([S EXCEPT !.e[p].e = Append(@, c)], p, c))
DelOpt(S, p, c) ==
    IF c # 0 /\ c \in Range(S.e[p].e) THEN Res(1, [S EXCEPT !.e[p].e = Rem(@, c)]) ELSE Res(0, S)

TreeOp(S, p, v) ==
    IF v \notin 1..3 \/ Len(S.e[p].l) < 2 THEN Res(0, S) ELSE Res(1, [S EXCEPT !.e[p].l = Append(@, -v)])

(*************************** attributes **********************************)
SetAttr(S, p, i, v) ==
    LET r == S.e[p] k == r.k
        no == Res(0, S) same == Res(1, S)
        put(w) == Res(1, [S EXCEPT !.e[p].a[i] = w]) IN
    CASE i = 1 -> IF k \in {124, 314} THEN same ELSE put(v)
      [] i = 2 -> IF k = 314 THEN same
                  ELSE IF k = 308 THEN (IF v = 2 THEN same ELSE no)
                  ELSE IF k \in {142, 144, 154, 164, 180} THEN (IF v = 0 THEN same ELSE no)
                  ELSE put(v)
      [] i = 3 -> IF k \in {102, 180, 308, 406, 408} THEN put(v) ELSE same
      [] i = 4 -> IF k \in {124, 308, 314} THEN same ELSE put(IF v = 0 THEN 0 ELSE 1)
      [] i = 5 -> IF k \in {124, 406} THEN same
                  ELSE IF k = 314 THEN (IF v \in 1..8 THEN put(v) ELSE no)
                  ELSE LET S1 == [S EXCEPT !.e[p].c = 0] IN
                       IF v \in 0..8 THEN Res(1, [S1 EXCEPT !.e[p].a[5] = v]) ELSE Res(0, S1)
      [] i = 6 -> IF k \in {124, 314} THEN same ELSE IF v < 0 THEN no ELSE put(v)
      [] i = 7 -> IF k \in {124, 314, 406} THEN same
                  ELSE IF v < 0 \/ r.o = 0 THEN no ELSE put(IF v > 4 THEN 4 ELSE v)
      [] i = 8 -> IF v \in 0..99999999 THEN put(v) ELSE no
      [] i = 9 -> IF k \in {124, 314, 406} THEN same ELSE IF v \in 0..5 THEN put(v) ELSE no
      [] i = 10 ->
            IF k = 314 THEN same
            ELSE IF k = 104 THEN (IF v \in 1..3 THEN put(v) ELSE no)
            ELSE IF k = 110 THEN (IF v \in 0..2 THEN put(v) ELSE no)
            ELSE IF k = 124 THEN (IF v \in {0, 1, 10, 11, 12} THEN put(v) ELSE no)
            ELSE IF k = 126 THEN (IF v \in 0..5 THEN put(v) ELSE no)
            ELSE IF k = 128 THEN (IF v \in 0..9 THEN put(v) ELSE no)
            ELSE IF k = 180 THEN (IF v = 1 \/ (v = 0 /\ r.a[10] = 0) THEN put(v) ELSE no)
            ELSE IF k = 406 THEN (IF v = 15 THEN same ELSE no)
            ELSE IF v = 0 THEN same ELSE no
      [] OTHER -> no

(************************** destruction **********************************)
Drop(r, c) ==   \* record r after its child c was destroyed
    [r EXCEPT !.x = IF @ = c THEN 0 ELSE @,
              !.c = IF @ = c THEN 0 ELSE @,
              !.e = Rem(@, c),
              !.s = [i \in DOMAIN @ |-> IF @[i] = c THEN 0 ELSE @[i]],
              !.l = IF c \notin Range(@) THEN @
                    ELSE IF r.k = 180 THEN <<>>
                    ELSE IF r.k = 102 /\ IndexOf(@, c) \notin {1, Len(@)} THEN <<>>
                    ELSE Rem(@, c)]
Destroy(S, c) ==
    [S EXCEPT !.e = TLCEval([i \in DOMAIN S.e |-> IF i = c THEN Dead
                                          ELSE IF S.e[i].k # 0 THEN Drop(S.e[i], c) ELSE S.e[i]])]
RECURSIVE DestroyAll(_, _)
DestroyAll(S, q) == IF q = <<>> THEN S ELSE DestroyAll(Destroy(S, Head(q)), Tail(q))

ClearModel(S, m) == [DestroyAll(S, S.m[m]) EXCEPT !.m[m] = <<>>, !.u[m] = 0]

(******************************* cull ************************************)
Orphan(S, i) ==
    LET r == S.e[i]
        alone == Parents(S, i) = {} IN
    \/ alone /\ r.k \in {124, 314}
    \/ alone /\ r.k \in (GeomKinds \cup {406}) /\ r.a[1] # 0
    \/ r.k = 102 /\ r.l = <<>>
    \/ r.k = 120 /\ (r.s[1] = 0 \/ r.s[2] = 0)
    \/ r.k \in {122, 144, 164, 408} /\ r.s[1] = 0
    \/ r.k = 142 /\ (r.s[1] = 0 \/ (r.s[2] = 0 /\ r.s[3] = 0))
    \/ r.k = 308 /\ r.l = <<>>
    \/ r.k = 406 /\ r.a[10] = 0
    \/ r.k \notin GeomKinds \cup {124, 314, 406}      \* unsupported kinds are always removable
Gone(S, i, vicious) == Orphan(S, i) \/ (vicious /\ S.e[i].k # 408 /\ Parents(S, i) = {})
\* one pass in list order, repeated until nothing more goes
RECURSIVE CullPass(_, _, _, _)
CullPass(S, q, v, keep) ==
    IF q = <<>> THEN [S |-> S, keep |-> keep]
    ELSE IF Gone(S, Head(q), v) THEN CullPass(Destroy(S, Head(q)), Tail(q), v, keep)
    ELSE CullPass(S, Tail(q), v, Append(keep, Head(q)))
RECURSIVE Cull(_, _, _)
Cull(S, m, v) ==
    LET R == CullPass(S, S.m[m], v, <<>>) IN
    IF Len(R.keep) = Len(S.m[m]) THEN S ELSE Cull([R.S EXCEPT !.m[m] = R.keep], m, v)

\* the declarative reading of E03: the least set closed under "orphaned once the others are gone"
RECURSIVE OrphanClosure(_, _, _)
OrphanClosure(S, m, D) ==
    LET T == DestroyAll(S, SelectSeq(S.m[m], LAMBDA i : i \in D))
        N == { i \in Range(S.m[m]) \ D : Orphan(T, i) } IN
    IF N = {} THEN D ELSE OrphanClosure(S, m, D \cup N)

(****************************** export ***********************************)
ExportPack(S, m) ==     \* what the new subfigure will contain
    LET q == S.m[m]
        top(i) == Parents(S, i) = {}
        ss == SelectSeq(q, LAMBDA i : S.e[i].k = 408 /\
                  (top(i) \/ (\E p \in Live(S) : Parents(S, i) = {p} /\ S.e[p].k = 308 /\ Parents(S, p) = {})))
        tp == SelectSeq(q, LAMBDA i : S.e[i].k = 144 /\ top(i)) IN
    IF ss # <<>> THEN ss ELSE tp
RECURSIVE PackAll(_, _, _)
PackAll(S, p, q) == IF q = <<>> THEN S ELSE PackAll(AppLink(S, p, Head(q)).S, p, Tail(q))
RECURSIVE MoveAll(_, _, _)
MoveAll(S, m, q) == IF q = <<>> THEN S ELSE MoveAll(AddEnt(S, m, Head(q)), m, Tail(q))
NewEnt(S, m, i, k, a, b) ==
    [S EXCEPT !.e[i] = [Dead EXCEPT !.k = k, !.o = m, !.a = DefA(k), !.g = DefG(k, a, b)], !.m[m] = Append(@, i)]
Export(S, m1, m2, n) ==
    IF m2 = 0 \/ m1 = m2 THEN [r |-> 0, v |-> 0, S |-> S]
    ELSE LET pack == ExportPack(S, m1) IN
         IF pack = <<>> THEN [r |-> 1, v |-> 0, S |-> S]
         ELSE LET all == S.m[m1]
                  S1 == NewEnt(S, m2, n, 308, 0, 0) IN
              [r |-> 1, v |-> n, S |-> MoveAll(PackAll(S1, n, pack), m2, all)]

(***************************** operations ********************************)
WILD == -9      \* a result which this specification leaves open
Apply(S, op, a) ==
    CASE op = "new"   -> Res(1, NewEnt(S, a[1], a[2], a[3], a[4], a[5]))
      [] op = "free"  -> Res(1, Destroy(S, a[1]))
      [] op = "add"   -> IF a[2] = 0 THEN Res(0, S) ELSE Res(1, AddEnt(S, a[1], a[2]))
      [] op = "unl"   -> IF a[2] # 0 /\ a[2] \in Range(S.m[a[1]])
                         THEN Res(1, [S EXCEPT !.m[a[1]] = Rem(@, a[2]), !.e[a[2]].o = 0]) ELSE Res(0, S)
      [] op = "del"   -> IF a[2] # 0 /\ a[2] \in Range(S.m[a[1]])
                         THEN Res(1, [Destroy(S, a[2]) EXCEPT !.m[a[1]] = Rem(@, a[2])]) ELSE Res(0, S)
      [] op = "pt"    -> Res(1, [S EXCEPT !.e[a[1]].g = SetPt(S.e[a[1]].k, Tail(a))])
      [] op = "alg"   -> Res(1, S)      \* a calculation with two transforms: T01 judges what it yields
      [] op = "tm"    -> Res(1, [S EXCEPT !.e[a[1]].g = Tail(a)])
      [] op = "res"   -> Res(1, [S EXCEPT !.u[a[1]] = a[2]])
      [] op = "M"     -> Res(1, [S EXCEPT !.m[a[1]] = <<>>, !.u[a[1]] = 0])
      [] op = "Mx"    -> Res(1, [ClearModel(S, a[1]) EXCEPT !.m[a[1]] = <<-1>>])
      [] op = "clear" -> Res(1, ClearModel(S, a[1]))
      [] op = "cull"  -> Res(1, Cull(S, a[1], a[2] # 0))
      [] op = "write" -> Res(WILD, Cull(S, a[1], FALSE))
      [] op = "set"   -> SetLink(S, a[1], a[2], a[3])
      [] op = "app"   -> AppLink(S, a[1], a[2])
      [] op = "rem"   -> RemLink(S, a[1], a[2])
      [] op = "xap"   -> AddOpt(S, a[1], a[2])
      [] op = "xrm"   -> DelOpt(S, a[1], a[2])
      [] op = "top"   -> TreeOp(S, a[1], a[2])
      [] op = "tcl"   -> Res(1, [S EXCEPT !.e[a[1]].l = <<>>])
      [] op = "at"    -> SetAttr(S, a[1], a[2], a[3])
      [] op = "export" -> LET R == Export(S, a[1], a[2], a[3]) IN Res(R.r, R.S)

(*************************** the properties ******************************)
\* E02: one owner, and the owner's list agrees
OneOwner(S) ==
    /\ \A i \in DOMAIN S.m : S.m[i] = <<-1>> \/
         /\ \A x \in Range(S.m[i]) : S.e[x].k # 0 /\ S.e[x].o = i
         /\ Cardinality(Range(S.m[i])) = Len(S.m[i])
    /\ \A x \in Live(S) : S.e[x].o # 0 => x \in Range(S.m[S.e[x].o])
\* E01: no link to a destroyed entity, no entity linked twice by the same parent, no self link
NoDangling(S) == \A p \in Live(S) : Links(S.e[p]) \subseteq Live(S) /\ p \notin Links(S.e[p])
LinkSeq(r) == <<r.x, r.c>> \o r.e \o r.s \o r.l
LinkedOnce(S) == \A p \in Live(S) : \A c \in Links(S.e[p]) :
    Cardinality({ i \in DOMAIN LinkSeq(S.e[p]) : LinkSeq(S.e[p])[i] = c }) = 1
\* E05: no direct circular link between an entity and a parent of it
NoTwoCycle(S) == \A p \in Live(S) : \A c \in Links(S.e[p]) : p \notin Links(S.e[c])
\* E05: transform chains and nested subfigures never become circular
NoNestCycle(S) == \A p \in Live(S) : S.e[p].k \in {124, 308, 408} => p \notin Inside(S, p)
\* E06
ChainOk(S) == \A p \in Live(S) : S.e[p].k = 102 =>
    /\ \A c \in Range(S.e[p].l) : S.e[c].k \in Curves \ {102}
\* E03 in every state: culling leaves no orphan, removes exactly the closure, and is idempotent
CullOk(S) == \A m \in DOMAIN S.m : S.m[m] # <<-1>> =>
    LET T == Cull(S, m, FALSE)
        D == OrphanClosure(S, m, {}) IN
    /\ \A x \in Range(T.m[m]) : ~Orphan(T, x)
    /\ Range(T.m[m]) = Range(S.m[m]) \ D
    /\ Cull(T, m, FALSE) = T
    /\ \A x \in Live(S) \ D : T.e[x].k # 0
=============================================================================
