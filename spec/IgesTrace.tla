----------------------------- MODULE IgesTrace -----------------------------
(* Trace validation of writing and reading: the entity graph (EntityGraph)  *)
(* plus parameter values, names, labels, comments, Globals and Start text   *)
(* of every model, and the files they were written to.  A file's bytes are  *)
(* decoded by IgesFile; what it states must be the model that was written,  *)
(* and a model that was read must be what its file states.                  *)
EXTENDS IgesUnits, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, V, G, F, l, skip
vars == <<S, V, G, F, l, skip>>
\* V[id] = [p, n, b, c];  G[m] = [g Globals, h Start lines] (g.known: observed yet?)
\* F[fid] = [st: "none"/"lib"/"put"/"dir", w: the model it was written from, d: decoded]
NoV == [p |-> <<>>, n |-> <<>>, b |-> <<>>, c |-> <<>>, q |-> {}, o |-> {}, h |-> {}, z |-> FALSE, y |-> FALSE]
NoG == [g |-> [known |-> FALSE], h |-> <<>>, open |-> FALSE, soft |-> FALSE]
NoF == [st |-> "none", w |-> [none |-> TRUE], d |-> [ok |-> FALSE, bad |-> {}, odd |-> TRUE], prev |-> 0]
NF == 40

UnitNames == << <<73,78>>, <<77,77>>, <<67,85,83,84>>, <<70,84>>, <<77,73>>, <<77>>, <<75,77>>, <<77,73,76>>, <<85,77>>, <<67,77>>, <<85,73,78>> >>
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + (n \div 10), 48 + (n % 10)>>
FName(f) == Digits(f) \o <<46, 105, 103, 115>>       \* "<f>.igs"
None4 == <<110, 111, 110, 101>>
DefStart == <<35>>

(************************ what a write must state ***************************)
\* attributes a kind fixes, as written
NormW(k, a) == CASE k = 308 -> [a EXCEPT ![2] = 2] [] k = 314 -> [a EXCEPT ![1] = 0, ![2] = 2] [] OTHER -> a
RECURSIVE Depth(_, _)
Max(q) == CHOOSE x \in q : \A y \in q : y <= x
Depth(T, i) ==
    LET r == T.e[i] IN
    IF r.k = 408 THEN (IF r.s[1] = 0 THEN 0 ELSE Depth(T, r.s[1]))
    ELSE IF r.k = 308 THEN Max({0} \cup { IF T.e[j].k \in {308, 408} THEN Depth(T, j) + 1 ELSE 0 : j \in Range(r.l) })
    ELSE 0
Idx(q, i) == IF i = 0 THEN 0 ELSE IndexOf(q, i)
\* the parameters a file states beyond the entity's own real values
FileP(T, V1, i) ==
    LET r == T.e[i] p == V1[i].p IN
    CASE r.k = 142 -> <<p[1], DecInt(IF r.s[2] = 0 THEN 2 ELSE IF r.s[3] = 0 THEN 1 ELSE AsInt(p[2]))>>
      [] r.k = 144 -> <<DecInt(IF r.s[2] = 0 THEN 0 ELSE 1)>>
      [] r.k = 308 -> <<DecInt(Depth(T, i))>>
      [] r.k = 406 -> <<<<1, 0>>>>
      [] r.k = 120 -> p
      [] OTHER -> p
RECURSIVE Chunks(_, _)
Chunks(s, w) == IF Len(s) <= w THEN <<Pad(s, w)>> ELSE <<SubSeq(s, 1, w)>> \o Chunks(SubSeq(s, w + 1, Len(s)), w)
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
CommentLines(c) == Flat([i \in DOMAIN c |-> Chunks(c[i], 64)])
StartLines(h) == Flat([i \in DOMAIN h |-> Chunks(h[i], 72)])
ModelOf(T, V1, m) ==
    LET q == T.m[m] IN
    [i \in DOMAIN q |-> LET r == T.e[q[i]] IN
        [k |-> r.k, x |-> Idx(q, r.x), c |-> Idx(q, r.c), e |-> [j \in DOMAIN r.e |-> Idx(q, r.e[j])],
         s |-> [j \in 1..3 |-> Idx(q, r.s[j])], l |-> [j \in DOMAIN r.l |-> IF r.l[j] < 0 THEN r.l[j] ELSE Idx(q, r.l[j])],
         a |-> NormW(r.k, r.a), p |-> FileP(T, V1, q[i]), n |-> V1[q[i]].n, b |-> LStrip(V1[q[i]].b), m |-> CommentLines(V1[q[i]].c), o |-> V1[q[i]].o]]
Project(d) == [k |-> d.k, x |-> d.x, c |-> d.c, e |-> d.e, s |-> d.s, l |-> d.l, a |-> d.a, p |-> d.p, n |-> d.n, b |-> d.b, m |-> d.m]
GlobalsFor(g, f) ==
    [pd |-> g.pdelim, rd |-> g.rdelim,
     idss |-> IF g.idss = <<>> THEN None4 ELSE g.idss, fname |-> FName(f), nsys |-> IF g.nsys = <<>> THEN None4 ELSE g.nsys,
     idrs |-> IF g.idrs # <<>> THEN g.idrs ELSE IF g.idss = <<>> THEN None4 ELSE g.idss, uname |-> UnitNames[g.units],
     author |-> g.author, org |-> g.org, note |-> g.note, units |-> g.units, lwg |-> Max({1, g.lwg}), draft |-> g.draft, ver |-> 11,
     scale |-> g.scale, lw |-> IF g.lw[1] = 0 \/ g.lw[2] < -12 THEN <<1, 0>> ELSE g.lw, res |-> g.res, maxc |-> <<0, 0>>]
GlobalsIn(D) == LET q == D.G IN
    [pd |-> q.pd, rd |-> q.rd, idss |-> q.s.idss, fname |-> q.s.fname, nsys |-> q.s.nsys, idrs |-> q.s.idrs, uname |-> q.s.uname,
     author |-> q.s.author, org |-> q.s.org, note |-> q.s.note, units |-> q.i.units, lwg |-> q.i.lwg, draft |-> q.i.draft, ver |-> q.i.ver,
     scale |-> q.r.scale, lw |-> q.r.lw, res |-> q.r.res, maxc |-> q.r.maxc]
IsDate(s) == Len(s) = 15 /\ s[9] = 46 /\ \A i \in (1..15) \ {9} : IsDigit(s[i])
Fields(A, B) == { f \in DOMAIN A : A[f] # B[f] }

\* a boolean tree is complete when it has one operator fewer than operands
TreeOk(r) == r.k # 180 \/ (Len(r.l) >= 3 /\ 2 * Cardinality({ j \in DOMAIN r.l : r.l[j] < 0 }) + 1 = Len(r.l))
Writable(T, m) == T.m[m] # <<>> /\ \A i \in Range(T.m[m]) : TreeOk(T.e[i])

(****************************** reading *************************************)
\* the graph a file states, as entities 1..n of a fresh state; culled
StatedGraph(D) ==
    LET n == Len(D.ents) IN
    [e |-> [i \in 1..n |-> LET d == D.ents[i] IN
              [k |-> d.k, o |-> 1, x |-> d.x, c |-> d.c, e |-> d.e, s |-> d.s, l |-> d.l, g |-> <<>>,
               a |-> IF d.a[7] > D.G.i.lwg THEN [d.a EXCEPT ![7] = D.G.i.lwg] ELSE d.a]],   \* weights are limited to the gradations
     m |-> << [i \in 1..n |-> i] >>, u |-> <<0>>]
\* links a reader may refuse (an entity linked twice by one parent, or a circular link)
Queer(T) == ~LinkedOnce(T) \/ ~NoDangling(T) \/ ~NoTwoCycle(T)
\* y: only the graph is predicted (a file from elsewhere whose attributes, names ... the reader may default)
Install(T, V1, m, D, base, y, O) ==
    LET G0 == TLCEval(StatedGraph(D))
        C == TLCEval(Cull(G0, 1, FALSE))
        q == C.m[1]
        at(i) == IF i = 0 THEN 0 ELSE base + IndexOf(q, i) - 1
        rec(i) == LET r == C.e[i] IN [r EXCEPT !.o = m, !.x = at(@), !.c = at(@), !.e = [j \in DOMAIN @ |-> at(@[j])],
                     !.s = [j \in 1..3 |-> at(@[j])], !.l = [j \in DOMAIN @ |-> IF @[j] < 0 THEN @[j] ELSE at(@[j])]]
        own(p, k) == IF k \in {144, 308, 406} THEN <<>> ELSE p
        u == D.G.i.units sc == D.G.r.scale
        \* read in millimetres and at scale 1
        conv(i) == LET p0 == own(D.ents[i].p, D.ents[i].k) p == [j \in DOMAIN p0 |-> IF (u # 2 \/ sc # <<1, 0>>) /\ j \in O[i] THEN OPEN ELSE p0[j]] IN
                   IF u = 2 /\ sc = <<1, 0>> THEN p
                   ELSE LET p1 == TLCEval([j \in DOMAIN p |-> Scaled(G0, i, p, j, PerUnit[2], PerUnit[u])]) IN
                        [j \in DOMAIN p |-> Scaled(G0, i, p1, j, <<1, 0>>, sc)] IN
    [S |-> [T EXCEPT !.e = [i \in DOMAIN T.e |-> IF i >= base /\ i < base + Len(q) THEN rec(q[i - base + 1]) ELSE T.e[i]],
                     !.m[m] = [i \in DOMAIN q |-> base + i - 1]],
     V |-> [i \in DOMAIN V1 |-> IF i >= base /\ i < base + Len(q)
             THEN LET n == q[i - base + 1] d == D.ents[n] p == TLCEval(conv(n)) IN
                  [p |-> p, n |-> d.n, b |-> d.b, c |-> d.m, q |-> IF y THEN {0} ELSE { j \in DOMAIN p : p[j] = OPEN }, o |-> {}, h |-> O[n], z |-> FALSE, y |-> y] ELSE V1[i]],
     n |-> Len(q)]
\* every length of the entities of model m multiplied by n/d; k at most one power of n/d in a global length
Rescale(T, V1, m, n, d) ==
    [i \in DOMAIN V1 |->
        IF i \notin Range(T.m[m]) \/ 0 \in V1[i].q THEN V1[i]
        ELSE LET v == V1[i]
                 p == TLCEval([j \in DOMAIN v.p |-> IF j \in v.q \cup v.h THEN OPEN ELSE Scaled(T, i, v.p, j, n, d)]) IN
             [v EXCEPT !.p = p, !.q = { j \in DOMAIN p : p[j] = OPEN }, !.o = v.h \cup { j \in DOMAIN p : p[j] = OPEN } \cup (IF T.e[i].k = 104 THEN 1..6 ELSE {})]]

(**************************** observations **********************************)
\* V.z: a Write failed, the attributes and flags which it normalises may have been
GraphDiff(T, V1, ev) ==
    LET n == Len(ev.e)
        live(i) == T.e[i].k # 0 /\ ev.e[i].k # 0
        bad(P(_)) == \E i \in 1..n : live(i) /\ ~P(i)
        par(i) == Range(ev.e[i].r) = Parents(T, i) /\ Len(ev.e[i].r) = Cardinality(Parents(T, i))
        lnk(i) == LET r == T.e[i] g == ev.e[i] IN r.x = g.x /\ r.c = g.c /\ r.e = g.e /\ r.s = g.s /\ r.l = g.l
        own(i) == T.e[i].o = ev.e[i].o
        at1(r, q) == (IF r.c # 0 THEN [q EXCEPT ![5] = -1] ELSE q)
        att(i) == LET r == T.e[i] IN V1[i].y \/ at1(r, r.a) = ev.e[i].a \/ (V1[i].z /\ at1(r, NormW(r.k, r.a)) = ev.e[i].a) IN
    (IF \E i \in 1..n : T.e[i].k # ev.e[i].k THEN {"alive"} ELSE {})
    \cup (IF bad(par) THEN {"parents"} ELSE {})
    \cup (IF bad(lnk) THEN {"links"} ELSE {})
    \cup (IF bad(own) \/ T.m # ev.m THEN {"owner"} ELSE {})
    \cup (IF bad(att) THEN {"attr"} ELSE {})
\* V.q: the parameters (0: all of them) which are not predicted (NURBS flags, defaults, values without a short
\* decimal form): adopted at the next observation.  V.o: those whose written precision is not predicted.
\* V.h: values which were adopted (and are rounded): nothing follows from them
SameP(v, p) == 0 \in v.q \/ v.p = p \/ (Len(v.p) = Len(p) /\ \A j \in DOMAIN p : v.p[j] = p[j] \/ j \in v.q)
ValDiff(T, V1, ev) ==
    UNION { IF T.e[i].k = 0 THEN {} ELSE
            (IF ~SameP(V1[i], ev.w[i].p) /\ ~(V1[i].z /\ T.e[i].k = 142 /\ FileP(T, V1, i) = ev.w[i].p) THEN {"param"} ELSE {})
            \cup (IF V1[i].y THEN {} ELSE IF V1[i].n # ev.w[i].n THEN {"name"} ELSE {})
            \cup (IF V1[i].y THEN {} ELSE IF V1[i].b # ev.w[i].b THEN {"label"} ELSE {})
            \cup (IF V1[i].y THEN {} ELSE IF V1[i].c # ev.w[i].c THEN {"comment"} ELSE {}) : i \in DOMAIN ev.w }
SetG(g, f, x, d) ==
    CASE f \in {"idss", "nsys", "idrs", "author", "org", "note", "cdate"} -> [g EXCEPT ![f] = x]
      [] f = "fname" -> [fname |-> x] @@ g
      [] f \in {"pdelim", "rdelim"} -> [g EXCEPT ![f] = x[1]]
      [] f \in {"scale", "lw", "res"} -> [g EXCEPT ![f] = d]
      [] f \in {"units", "lwg", "draft", "ver"} -> [g EXCEPT ![f] = AsInt(d)]
      [] OTHER -> g
\* Globals which a read must restore, which a write must not alter
GKeep == {"pdelim", "rdelim", "idss", "idrs", "nsys", "author", "org", "cdate", "note", "units", "lwg", "draft", "ver", "scale", "lw", "res"}
ReadGlobals(D, f) ==
    LET q == D.G IN
    LET u == q.i.units r1 == IF q.r.res = <<>> THEN OPEN ELSE Ratio(Ratio(q.r.res, PerUnit[2], PerUnit[u]), <<1, 0>>, q.r.scale) IN
    [known |-> TRUE, pdelim |-> q.pd, rdelim |-> q.rd, idss |-> q.s.idss, idrs |-> q.s.idrs, nsys |-> q.s.nsys, author |-> q.s.author,
     org |-> q.s.org, cdate |-> q.s.cdate, note |-> q.s.note, units |-> 2, lwg |-> q.i.lwg, draft |-> q.i.draft, ver |-> q.i.ver,
     scale |-> <<1, 0>>, lw |-> q.r.lw, res |-> IF u = 2 /\ q.r.scale = <<1, 0>> THEN q.r.res ELSE r1, fname |-> FName(f), prep |-> q.s.prep, mdate |-> q.s.mdate,
     uname |-> IF u = 2 THEN q.s.uname ELSE OPEN, maxc |-> q.r.maxc]
GCheck == GKeep \cup {"fname", "prep", "mdate", "uname", "maxc"}

Report(ev, d, more) == PrintT("DIFF " \o ToJson([t |-> ev.t, i |-> ev.i, op |-> ev.op, a |-> ev.a, d |-> d, r |-> ev.r, more |-> more]))

\* the differences between a decoded file and the model it was written from
FileDiff(D, w, f, lastNl) ==
    IF D.bad # {} THEN { "F01 " \o x : x \in D.bad }
    ELSE
    LET E == [i \in DOMAIN D.ents |-> IF "k" \in DOMAIN D.ents[i] THEN Project(D.ents[i]) ELSE [k |-> -1]]
        gd == Fields(GlobalsIn(D), GlobalsFor(w.g, f)) \ ((IF w.soft THEN {"res", "lw"} ELSE {}) \cup (IF w.g.res = OPEN \/ w.g.res[1] > 99999 THEN {"res"} ELSE {})) IN
    (IF ~D.counts \/ ~lastNl THEN {"F01 terminate"} ELSE {})
    \cup (IF ~D.G.whole \/ \E i \in DOMAIN D.ents : "w" \in DOMAIN D.ents[i] /\ ~D.ents[i].w THEN {"F01 split value"} ELSE {})
    \cup (IF D.odd THEN {"F01 content"} ELSE {})
    \cup (IF Len(E) # Len(w.m) THEN {"F01 entities"}
          ELSE UNION { IF E[i].k # w.m[i].k THEN {"F01 kind"} ELSE
             { (IF x \in {"x", "c", "e", "s", "l"} THEN "F01 pointer " ELSE "F02 stated ") \o x : x \in Fields(E[i], w.m[i])
                                                        \ (IF w.soft \/ (Len(E[i].p) = Len(w.m[i].p) /\ \A j \in DOMAIN E[i].p : j \in w.m[i].o \/ E[i].p[j] = w.m[i].p[j]) THEN {"p"} ELSE {}) } : i \in DOMAIN E })
    \cup { "F04 global " \o x : x \in gd }
    \cup (IF ~IsDate(D.G.s.mdate) \/ D.G.s.prep = <<>> \/ <<D.G.i.bits, D.G.i.e1, D.G.i.d1, D.G.i.e2, D.G.i.d2>> # <<32, 38, 6, 308, 15>> THEN {"F04 global mdate"} ELSE {})
    \cup (IF (w.g.cdate # <<>> /\ D.G.s.cdate # w.g.cdate) \/ (~IsDate(D.G.s.cdate) /\ Len(w.g.cdate) # 13) THEN {"F04 global cdate"} ELSE {})
    \cup (IF w.h # <<>> /\ D.start # StartLines(w.h) THEN {"F04 start"} ELSE {})
\* the difference between a file and the rewritten one (prev)
StableDiff(D, P) ==
    IF D.bad # {} \/ P.bad # {} THEN {}
    ELSE (IF D.sec.D # P.sec.D \/ D.sec.P # P.sec.P THEN {"F02 stable entities"} ELSE {})
         \cup (IF D.start # P.start THEN {"F04 stable start"} ELSE {})
         \cup (IF ~P.G.noidrs /\ D.sec.T # P.sec.T THEN {"F02 stable terminate"} ELSE {})
         \cup (IF [GlobalsIn(D) EXCEPT !.fname = <<>>] # [GlobalsIn(P) EXCEPT !.fname = <<>>] \/ D.G.s.cdate # P.G.s.cdate THEN {"F04 stable globals"} ELSE {})

Init == S = Empty(1, 1) /\ V = <<>> /\ G = <<>> /\ F = <<>> /\ l = 1 /\ skip = FALSE
Fail(ev, d, more) == Report(ev, d, more) /\ skip' = TRUE /\ UNCHANGED <<S, V, G, F>>
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET ev == Trace[l] op == ev.op a == ev.a IN
       CASE op = "start" ->
              /\ S' = Empty(a[1], a[2]) /\ V' = [i \in 1..a[2] |-> NoV] /\ G' = [i \in 1..a[1] |-> NoG]
              /\ F' = [i \in 1..NF |-> NoF] /\ skip' = FALSE
         [] op = "end" \/ skip -> UNCHANGED <<S, V, G, F, skip>>
         [] op = "val" ->
              IF ev.r # 1 THEN Fail(ev, {"result"}, <<>>)
              ELSE LET n == (Len(a) - 1) \div 2
                       k == S.e[a[1]].k
                       p == [i \in 1..n |-> IF a[2*i] < 0 THEN LET z == NormE(-a[2*i], a[2*i+1]) IN <<-z[1], z[2]>> ELSE NormE(a[2*i], a[2*i+1])] IN
                   /\ V' = [V EXCEPT ![a[1]].p = p, ![a[1]].h = {}, ![a[1]].q = IF k \in {126, 128} THEN {0} ELSE {}]
                   /\ UNCHANGED <<S, G, F, skip>>
         [] op \in {"name", "label", "comment"} ->
              IF ev.r # 1 THEN Fail(ev, {"result"}, <<>>)
              ELSE /\ V' = [V EXCEPT ![a[1]] = CASE op = "name" -> [@ EXCEPT !.n = ev.x] [] op = "label" -> [@ EXCEPT !.b = SubSeq(ev.x, 1, IF Len(ev.x) < 8 THEN Len(ev.x) ELSE 8)]
                                          [] OTHER -> [@ EXCEPT !.c = Append(@, ev.x)]]
                   /\ UNCHANGED <<S, G, F, skip>>
         [] op = "head" -> G' = [G EXCEPT ![a[1]].h = Append(@, ev.x)] /\ UNCHANGED <<S, V, F, skip>>
         [] op = "gset" -> 
              /\ G' = [G EXCEPT ![a[1]].g = IF @.known THEN SetG(@, ev.f, ev.x, ev.d) ELSE @] 
              /\ UNCHANGED <<S, V, F, skip>>
         [] op = "gget" ->
              LET g == G[a[1]].g
                  d == IF g.known THEN { "F04 field " \o f : f \in { x \in GCheck : x \in DOMAIN g /\ g[x] # ev.g[x] /\ ~(x \in {"res", "uname"} /\ g[x] = OPEN) } } ELSE {} IN
              IF d # {} THEN Fail(ev, d, <<g, ev.g>>)
              ELSE /\ G' = [G EXCEPT ![a[1]].g = IF @.known THEN @ ELSE [known |-> TRUE] @@ [x \in GKeep |-> ev.g[x]]]
                   /\ UNCHANGED <<S, V, F, skip>>
         [] op = "ghead" ->
              IF ev.v # G[a[1]].h THEN Fail(ev, {"F04 start lines"}, G[a[1]].h) ELSE UNCHANGED <<S, V, G, F, skip>>
         [] op = "vobs" ->
              IF \E m \in DOMAIN G : G[m].open THEN UNCHANGED <<S, V, G, F, skip>>
              ELSE
              \E d \in {GraphDiff(S, V, ev) \cup ValDiff(S, V, ev)} :
              IF d # {} THEN Fail(ev, d, <<[i \in DOMAIN S.e |-> IF S.e[i].k = 0 THEN <<>> ELSE <<S.e[i], V[i]>>], S.m>>)
              ELSE /\ V' = [i \in DOMAIN V |-> IF i <= Len(ev.w) /\ S.e[i].k # 0
                                 THEN [V[i] EXCEPT !.p = ev.w[i].p, !.n = ev.w[i].n, !.b = ev.w[i].b, !.c = ev.w[i].c, !.h = @ \cup (V[i].q \ {0}), !.o = @ \cup (V[i].q \ {0}), !.q = {}, !.z = FALSE, !.y = FALSE] ELSE V[i]]
                   /\ S' = [S EXCEPT !.e = [i \in DOMAIN S.e |-> IF (V[i].z \/ V[i].y) /\ S.e[i].k # 0
                                 THEN [S.e[i] EXCEPT !.a = IF S.e[i].c # 0 THEN [ev.e[i].a EXCEPT ![5] = 0] ELSE ev.e[i].a] ELSE S.e[i]]]
                   /\ UNCHANGED <<G, F, skip>>
         \* fputv: another layout of the last written file, which must be read as that file is
         [] op = "fputv" -> F' = [F EXCEPT ![a[1]] = [NoF EXCEPT !.st = "eqv"]] /\ UNCHANGED <<S, V, G, skip>>
         [] op = "fput" -> F' = [F EXCEPT ![a[1]] = [NoF EXCEPT !.st = "put"]] /\ UNCHANGED <<S, V, G, skip>>
         [] op = "fdel" -> F' = [F EXCEPT ![a[1]] = NoF] /\ UNCHANGED <<S, V, G, skip>>
         [] op = "fdir" -> F' = [F EXCEPT ![a[1]] = [NoF EXCEPT !.st = "dir"]] /\ UNCHANGED <<S, V, G, skip>>
         [] op = "flink" -> F' = [F EXCEPT ![a[1]] = [NoF EXCEPT !.st = "full"]] /\ UNCHANGED <<S, V, G, skip>>
         [] op = "fbad" -> F' = [F EXCEPT ![a[1]] = [NoF EXCEPT !.st = "bad"]] /\ UNCHANGED <<S, V, G, skip>>
         \* a file its owner may write to and not read
         [] op = "fwo" -> F' = [F EXCEPT ![a[1]] = [NoF EXCEPT !.st = "wo"]] /\ UNCHANGED <<S, V, G, skip>>
         [] op = "write" /\ G[a[1]].open -> F' = [F EXCEPT ![a[2]] = [NoF EXCEPT !.st = "wild"]] /\ UNCHANGED <<S, V, G, skip>>
         [] op \in {"write", "uwrite"} ->
              \E T \in {Cull(S, a[1], FALSE)} :
              \E ok \in {Writable(T, a[1])} :
              \E T2 \in {IF ok THEN [T EXCEPT !.e = [i \in DOMAIN T.e |-> IF T.e[i].o = a[1] THEN [T.e[i] EXCEPT !.a = NormW(T.e[i].k, @)] ELSE T.e[i]]] ELSE T} :
              \E V2 \in {[i \in DOMAIN V |-> IF T2.e[i].k = 142 /\ T2.e[i].o = a[1] /\ ok THEN [V[i] EXCEPT !.p = FileP(T2, V, i)] ELSE IF T2.e[i].o = a[1] /\ ~ok THEN [V[i] EXCEPT !.z = TRUE] ELSE V[i]]} :
              \E W \in {IF ok THEN ModelOf(T2, V2, a[1]) ELSE <<>>} :
              LET f == F[a[2]]
                  r == IF ok /\ (f.st = "none" \/ (f.st \in {"put", "lib", "eqv", "wild", "wo"} /\ a[3] # 0)) THEN 1 ELSE 0 IN
              IF ev.r # r THEN Fail(ev, {"F05 write result"}, <<r, T.m[a[1]]>>)
              ELSE /\ S' = T2
                   /\ V' = V2
                   /\ F' = IF r = 1 THEN [F EXCEPT ![a[2]] = [st |-> "lib", w |-> [m |-> W, g |-> G[a[1]].g, h |-> G[a[1]].h, soft |-> G[a[1]].soft], d |-> NoF.d,
                                                              prev |-> IF "from" \in DOMAIN G[a[1]] THEN G[a[1]].from ELSE 0]] ELSE F
                   /\ G' = IF r = 1 THEN [G EXCEPT ![a[1]].h = StartLines(@), ![a[1]].g = LET g == @ IN [fname |-> FName(a[2])] @@ g] ELSE G
                   /\ UNCHANGED skip
         [] op = "dump" ->
              \E D \in {Decode(ev.L)} :
              LET f == F[a[1]]
                  d == IF f.st = "lib" THEN FileDiff(D, f.w, a[1], ev.r = 1) \cup (IF f.prev # 0 THEN StableDiff(D, F[f.prev].d) ELSE {}) ELSE {} IN
              IF d # {} THEN Fail(ev, d, <<IF D.bad = {} THEN [i \in DOMAIN D.ents |-> IF "k" \in DOMAIN D.ents[i] THEN Project(D.ents[i]) ELSE [k |-> -1]] ELSE <<>>, IF D.bad = {} THEN GlobalsIn(D) ELSE <<>>, f.w>>)
              ELSE /\ F' = [F EXCEPT ![a[1]].d = D, ![a[1]].st = IF ev.r = 0 THEN "none" ELSE @]
                   /\ (IF f.st = "eqv" /\ ~D.ok THEN PrintT("BADEQV " \o ToJson([t |-> ev.t, i |-> ev.i, bad |-> D.bad])) ELSE TRUE)
                   /\ (IF f.st = "put" THEN PrintT("FILE " \o ToJson([t |-> ev.t, f |-> a[1], ok |-> D.ok, bad |-> D.bad, odd |-> D.odd])) ELSE TRUE)
                   /\ UNCHANGED <<S, V, G, skip>>
         [] op = "read" ->
              LET f == F[a[2]] D == f.d
                  usable == D.ok /\ ~Queer(StatedGraph(D))
                  d == (IF f.st = "none" /\ ev.r # 0 THEN {"F03 missing file read"} ELSE {})
                       \cup (IF D.bad # {} /\ ev.r # 0 THEN {"F03 damaged file accepted"} ELSE {})
                       \cup (IF f.st = "lib" /\ ev.r # 1 THEN {"F02 written file not read"} ELSE {})
                       \cup (IF f.st = "eqv" /\ D.ok /\ ev.r # 1 THEN {"F02 other layout not read"} ELSE {}) IN
              IF d # {} THEN Fail(ev, d, D.bad)
              ELSE IF ev.r = 0 THEN UNCHANGED <<S, V, G, F, skip>>
              ELSE IF f.st = "wild" \/ ~usable THEN G' = [G EXCEPT ![a[1]].open = TRUE] /\ UNCHANGED <<S, V, F, skip>>     \* content left open
              ELSE \E I \in {Install(S, V, a[1], D, a[3], f.st = "put", [i \in DOMAIN D.ents |-> IF f.st = "lib" THEN f.w.m[i].o ELSE {}])} :
                   IF Len(ev.v) # I.n \/ \E i \in DOMAIN ev.v : ev.v[i] # a[3] + i - 1 THEN Fail(ev, {(IF f.st = "put" THEN "F03" ELSE "F02") \o " entities"}, I.n)
                   ELSE /\ S' = I.S /\ V' = I.V
                        /\ G' = [G EXCEPT ![a[1]] = [g |-> LET g == ReadGlobals(D, a[2]) IN IF f.st = "lib" /\ f.w.g.known /\ f.w.g.res = OPEN THEN [g EXCEPT !.res = OPEN] ELSE g, h |-> D.start, open |-> FALSE, soft |-> f.st = "put", from |-> IF f.st = "lib" THEN a[2] ELSE 0]]
                        /\ UNCHANGED <<F, skip>>
         [] op = "units" ->
              LET g == G[a[1]].g u == a[2]
                  r == IF g.units = u THEN 1 ELSE IF 3 \in {g.units, u} THEN 0 ELSE 1 IN
              IF ev.r # r THEN Fail(ev, {"U01 result"}, <<r, g.units>>)
              ELSE IF r = 0 \/ g.units = u THEN UNCHANGED <<S, V, G, F, skip>>
              ELSE /\ V' = Rescale(S, V, a[1], PerUnit[u], PerUnit[g.units])
                   /\ G' = [G EXCEPT ![a[1]].g = [@ EXCEPT !.units = u, !.res = Ratio(@, PerUnit[u], PerUnit[g.units])] ]
                   /\ UNCHANGED <<S, F, skip>>
         [] op = "scale" ->
              LET g == G[a[1]].g
                  r == IF TooSmall(ev.d) \/ TooBig(ev.d) THEN 0 ELSE 1 IN
              IF ev.r # r THEN Fail(ev, {"U01 result"}, <<r, g.scale>>)
              ELSE IF r = 0 THEN UNCHANGED <<S, V, G, F, skip>>
              ELSE /\ V' = Rescale(S, V, a[1], ev.d, g.scale)
                   /\ G' = [G EXCEPT ![a[1]].g = [@ EXCEPT !.scale = ev.d, !.res = Ratio(@, ev.d, g.scale)] ]
                   /\ UNCHANGED <<S, F, skip>>
         \* an export brings the model to the unit and scale of the destination (even when there is nothing to export),
         \* moves everything below a new subfigure definition (which takes the name of the source's file)
         [] op = "export" ->
              \E R \in {Export(S, a[1], a[2], a[3])} :
              LET none == a[2] = 0 \/ a[1] = a[2] \/ S.m[a[1]] = <<>> IN
              IF ev.r # R.r THEN Fail(ev, {"X01 result"}, R.r)
              ELSE IF ev.v[1] # R.v THEN Fail(ev, {"X01 subfigure"}, R.v)
              ELSE IF none THEN UNCHANGED <<S, V, G, F, skip>>
              ELSE
              LET g1 == G[a[1]].g g2 == G[a[2]].g
                  sc == g1.scale # g2.scale un == g1.units # g2.units
                  w(x) == IF x <= 0 THEN x ELSE Max({1, (x * Max({1, g2.lwg})) \div Max({1, g1.lwg})})
                  fn == g1.fname
                  dots == { i \in DOMAIN fn : fn[i] = 46 }
                  nm == IF dots \ {1} # {} THEN SubSeq(fn, 1, Max(dots) - 1) ELSE fn
                  known == "fname" \in DOMAIN g1 /\ g1.fname # <<>>
                  gen == IF R.v = 0 THEN <<>> ELSE ev.name
                  pre == IF Len(SelectSeq(ExportPack(S, a[1]), LAMBDA i : S.e[i].k = 408)) > 1 THEN <<97, 115, 115, 121>> ELSE <<112, 97, 114, 116>>
                  nameok == IF R.v = 0 THEN TRUE ELSE IF known THEN gen = nm
                            ELSE Len(gen) >= 21 /\ SubSeq(gen, 1, 4) = pre /\ (\A i \in 5..Len(gen) : IsDigit(gen[i]))
                                 /\ \A i \in DOMAIN V : S.e[i].k = 308 => V[i].n # gen IN
              IF ~nameok THEN Fail(ev, {"X01 name"}, IF known THEN nm ELSE pre)
              ELSE
              \E V1 \in {IF sc THEN Rescale(S, V, a[1], g2.scale, g1.scale) ELSE V} :
              \E V2 \in {IF un THEN Rescale(S, V1, a[1], PerUnit[g2.units], PerUnit[g1.units]) ELSE V1} :
              \E r1 \in {IF sc THEN Ratio(g1.res, g2.scale, g1.scale) ELSE g1.res} :
              \E r2 \in {IF un THEN Ratio(r1, PerUnit[g2.units], PerUnit[g1.units]) ELSE r1} :
                   /\ S' = IF R.v = 0 THEN R.S
                           ELSE [R.S EXCEPT !.e = [i \in DOMAIN R.S.e |-> IF i \in Range(S.m[a[1]]) THEN [R.S.e[i] EXCEPT !.a[7] = w(@)] ELSE R.S.e[i]]]
                   /\ V' = IF R.v = 0 THEN V2 ELSE [V2 EXCEPT ![R.v] = [NoV EXCEPT !.n = gen]]
                   /\ G' = [G EXCEPT ![a[1]].g = [@ EXCEPT !.units = g2.units, !.scale = g2.scale, !.res = r2]]
                   /\ UNCHANGED <<F, skip>>
         [] op = "stat" ->
              LET f == F[a[1]] r == CASE f.st \in {"none", "bad"} -> 0 [] f.st = "dir" -> 2 [] OTHER -> 1 IN
              IF ev.r # r THEN Fail(ev, {"F05 file"}, r)
              ELSE IF "hash" \in DOMAIN f /\ f.hash # ev.v THEN Fail(ev, {"F05 file changed"}, f.hash)
              ELSE /\ F' = [F EXCEPT ![a[1]] = IF "hash" \in DOMAIN f THEN f ELSE f @@ [hash |-> ev.v]] /\ UNCHANGED <<S, V, G, skip>>
         [] op \in {"clear", "M", "Mx"} ->
              /\ S' = Apply(S, op, a).S /\ G' = [G EXCEPT ![a[1]] = NoG] /\ UNCHANGED <<V, F, skip>>
         [] OTHER ->
              \* a line weight is limited to the gradations of the owner
              LET w == IF op = "at" /\ a[2] = 7 THEN S.e[a[1]].o ELSE 0
                  lim == IF w # 0 /\ "lwg" \in DOMAIN G[w].g THEN G[w].g.lwg ELSE 4 IN
              \E R \in {IF w # 0 /\ a[3] >= 0 /\ S.e[a[1]].k \notin {124, 314, 406}
                         THEN Res(1, [S EXCEPT !.e[a[1]].a[7] = IF a[3] < lim THEN a[3] ELSE lim]) ELSE Apply(S, op, a)} :
              IF R.r # WILD /\ R.r # ev.r THEN Fail(ev, {"result"}, R.r)
              ELSE /\ S' = R.S
                   /\ V' = IF op = "new" THEN [V EXCEPT ![a[2]] = [NoV EXCEPT !.q = {0}, !.n = CASE a[3] = 308 -> <<115,117,98>> [] a[3] = 406 -> <<112,114,111,112>> [] OTHER -> <<>>]]
                           ELSE IF op = "pt" THEN [V EXCEPT ![a[1]].q = {0}] ELSE IF op = "tm" THEN [V EXCEPT ![a[1]].q = {0}] ELSE V
                   /\ UNCHANGED <<G, F, skip>>
Spec == Init /\ [][Next]_vars
=============================================================================
