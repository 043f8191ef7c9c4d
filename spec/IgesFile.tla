------------------------------ MODULE IgesFile ------------------------------
(***************************************************************************)
(* What the lines of an IGES file mean.  A file is a sequence of lines, a  *)
(* line a sequence of character codes.  Decode(lines) is the model a file  *)
(* states: bad = structural faults for which a reader must refuse it, odd  *)
(* = content this specification leaves open, otherwise Start text, Globals *)
(* and entities.  The module is written from the IGES 5.3 record, free     *)
(* format and entity layouts, independently of the library.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL Rng(q) == { q[i] : i \in DOMAIN q }

BLANK == 1000000001
BAD   == 1000000002
cS == 83  cG == 71  cD == 68  cP == 80  cT == 84  cH == 72

IsDigit(c) == c >= 48 /\ c <= 57
RECURSIVE SkipSp(_, _, _)
SkipSp(l, i, hi) == IF i > hi THEN i ELSE IF l[i] = 32 THEN SkipSp(l, i + 1, hi) ELSE i
RECURSIVE SkipDig(_, _, _)
SkipDig(l, i, hi) == IF i > hi THEN i ELSE IF IsDigit(l[i]) THEN SkipDig(l, i + 1, hi) ELSE i
RECURSIVE DigVal(_, _, _, _)
DigVal(l, i, hi, acc) == IF i > hi THEN acc ELSE DigVal(l, i + 1, hi, 10 * acc + l[i] - 48)
\* an integer in l[a..b], optional sign, blanks before it only
IntIn(l, a, b) ==
    LET i == SkipSp(l, a, b) IN
    IF i > b THEN BLANK
    ELSE LET j == IF l[i] \in {43, 45} THEN i + 1 ELSE i IN
         IF j > b \/ SkipDig(l, j, b) # b + 1 \/ b - j > 8 THEN BAD
         ELSE IF l[i] = 45 THEN -DigVal(l, j, b, 0) ELSE DigVal(l, j, b, 0)
Field(l, f) == IntIn(l, 8 * f + 1, 8 * f + 8)
FieldD(l, f, d) == LET v == Field(l, f) IN IF v = BLANK THEN d ELSE v
RECURSIVE Chop(_)
Chop(l) == IF Len(l) > 1 /\ l[Len(l)] \in {10, 12, 13} THEN Chop(SubSeq(l, 1, Len(l) - 1)) ELSE l
RECURSIVE Strip(_)
Strip(l) == IF l # <<>> /\ l[Len(l)] = 32 THEN Strip(SubSeq(l, 1, Len(l) - 1)) ELSE l
LStrip(l) == SubSeq(l, SkipSp(l, 1, Len(l)), Len(l))
Pad(l, n) == l \o [i \in 1..(n - Len(l)) |-> 32]
Trim(l) == Strip(LStrip(l))

(***************************** records *************************************)
RecOk(l) == Len(l) = 80 /\ LET v == IntIn(l, 74, 80) IN v # BLANK /\ v # BAD /\ v > 0
Letter(l) == l[73]
SeqNo(l) == IntIn(l, 74, 80)
RECURSIVE RunEnd(_, _, _)       \* the first index from i on which is not a good record of section c
RunEnd(L, i, c) == IF i > Len(L) THEN i ELSE IF RecOk(L[i]) /\ Letter(L[i]) = c THEN RunEnd(L, i + 1, c) ELSE i
Numbered(L, a, b) == \A i \in a..b : SeqNo(L[i]) = i - a + 1
\* sections in the order S G D P T, each numbered from 1, the first record of T well formed
Frame(L) ==
    LET g == RunEnd(L, 1, cS)
        d == RunEnd(L, g, cG)
        p == RunEnd(L, d, cD)
        t == RunEnd(L, p, cP)
        tOk == t <= Len(L) /\ RecOk(L[t]) /\ Letter(L[t]) = cT /\ SeqNo(L[t]) = 1
        tNum(i) == LET v == IntIn(L[t], 8 * i - 6, 8 * i) IN v # BLANK /\ v # BAD
        tForm == tOk /\ \A i \in 1..4 : L[t][8 * i - 7] = <<cS, cG, cD, cP>>[i] /\ tNum(i)
    IN [g |-> g, d |-> d, p |-> p, t |-> t,
        bad |-> (IF g = 1 THEN {"start section"} ELSE {}) \cup (IF d = g THEN {"global section"} ELSE {})
           \cup (IF p = d THEN {"directory section"} ELSE {}) \cup (IF t = p THEN {"parameter section"} ELSE {})
           \cup (IF (p - d) % 2 = 1 THEN {"odd directory"} ELSE {})
           \cup (IF ~tOk \/ ~tForm THEN {"terminate record"} ELSE {})
           \cup (IF ~(Numbered(L, 1, g - 1) /\ Numbered(L, g, d - 1) /\ Numbered(L, d, p - 1) /\ Numbered(L, p, t - 1)) THEN {"numbering"} ELSE {})]
\* what a writer owes in addition: the Terminate counts, and nothing after the Terminate record
Counts(L, F) ==
    /\ IntIn(L[F.t], 2, 8) = F.g - 1 /\ IntIn(L[F.t], 10, 16) = F.d - F.g
    /\ IntIn(L[F.t], 18, 24) = F.p - F.d /\ IntIn(L[F.t], 26, 32) = F.t - F.p
    /\ F.t = Len(L)
    /\ \A i \in 33..72 : L[F.t][i] = 32

(*************************** free format ***********************************)
\* tokens <<kind (0 empty, 1 literal, 2 Hollerith), first, last>>; e is the index after the record delimiter
RECURSIVE FindD(_, _, _, _)
FindD(c, i, pd, rd) == IF i > Len(c) THEN i ELSE IF c[i] = pd \/ c[i] = rd THEN i ELSE FindD(c, i + 1, pd, rd)
RECURSIVE Toks(_, _, _, _, _)
Toks(c, i, pd, rd, acc) ==
    LET n == Len(c)
        j == SkipSp(c, i, n)
        fail == [ok |-> FALSE, t |-> acc, e |-> n + 1] IN
    IF j > n THEN fail
    ELSE IF c[j] = rd THEN [ok |-> TRUE, t |-> Append(acc, <<0, j, j - 1>>), e |-> j + 1]
    ELSE IF c[j] = pd THEN Toks(c, j + 1, pd, rd, Append(acc, <<0, j, j - 1>>))
    ELSE LET k == SkipDig(c, j, n) IN
         IF k > j /\ k <= n /\ c[k] = cH
         THEN IF k - j > 6 THEN fail
              ELSE LET z == k + DigVal(c, j, k - 1, 0) IN
                   IF z = k \/ z + 1 > n THEN fail
                   ELSE IF c[z + 1] = rd THEN [ok |-> TRUE, t |-> Append(acc, <<2, k + 1, z>>), e |-> z + 2]
                   ELSE IF c[z + 1] = pd THEN Toks(c, z + 2, pd, rd, Append(acc, <<2, k + 1, z>>))
                   ELSE fail
         ELSE LET d == FindD(c, k, pd, rd) IN
              IF d > n THEN fail
              ELSE IF c[d] = rd THEN [ok |-> TRUE, t |-> Append(acc, <<1, j, d - 1>>), e |-> d + 1]
              ELSE Toks(c, d + 1, pd, rd, Append(acc, <<1, j, d - 1>>))

\* decimal reals <<m, e>> = m * 10^e, nine significant digits, no trailing zeros; <<>> = not a real
RECURSIVE NormE(_, _)
NormE(m, e) == IF m = 0 THEN <<0, 0>> ELSE IF m % 10 = 0 THEN NormE(m \div 10, e + 1) ELSE <<m, e>>
RECURSIVE LeadNZ(_, _, _)
LeadNZ(l, i, hi) == IF i > hi THEN i ELSE IF l[i] = 48 \/ l[i] = 46 THEN LeadNZ(l, i + 1, hi) ELSE i
Real(l, a, b) ==
    LET neg == l[a] = 45
        a1 == IF l[a] \in {43, 45} THEN a + 1 ELSE a
        i1 == SkipDig(l, a1, b)
        dot == i1 <= b /\ l[i1] = 46
        i2 == IF dot THEN SkipDig(l, i1 + 1, b) ELSE i1       \* after the mantissa
        nd == (i2 - a1) - (IF dot THEN 1 ELSE 0)
        ex == i2 <= b /\ l[i2] \in {68, 69}
        xv == IF ex THEN IntIn(l, i2 + 1, b) ELSE 0
        frac == IF dot THEN i2 - 1 - i1 ELSE 0
        z == LeadNZ(l, a1, i2 - 1)
        \* significant digits without the point
        ds == SelectSeq(SubSeq(l, z, i2 - 1), LAMBDA ch : ch # 46)
        n9 == IF Len(ds) > 9 THEN 9 ELSE Len(ds)
        up == IF Len(ds) > 9 /\ ds[10] >= 53 THEN 1 ELSE 0
        m == DigVal(ds, 1, n9, 0) + up
        e == xv - frac + (Len(ds) - n9)
        q == NormE(m, e) IN
    IF a > b \/ nd < 1 \/ (~ex /\ i2 # b + 1) \/ xv = BLANK \/ xv = BAD THEN <<>>
    ELSE IF ds = <<>> THEN <<0, 0>> ELSE IF neg THEN <<-q[1], q[2]>> ELSE q
\* the value of a decimal which is an integer (BAD otherwise)
AsInt(q) == IF q = <<>> THEN BAD ELSE IF q[2] < 0 \/ q[2] > 6 THEN BAD ELSE q[1] * 10^q[2]
DecInt(n) == IF n < 0 THEN LET q == NormE(-n, 0) IN <<-q[1], q[2]>> ELSE NormE(n, 0)

TokInt(c, t)  == IF t[1] = 0 THEN BLANK ELSE IF t[1] = 2 THEN BAD ELSE IntIn(c, t[2], t[3])
TokReal(c, t) == IF t[1] # 1 THEN <<>> ELSE Real(c, t[2], t[3])
TokStr(c, t)  == IF t[1] = 1 THEN <<-1>> ELSE SubSeq(c, t[2], t[3])

RECURSIVE Concat(_, _, _, _)
Concat(L, a, b, w) == IF a > b THEN <<>> ELSE IF a = b THEN SubSeq(L[a], 1, w)
                      ELSE LET m == (a + b) \div 2 IN Concat(L, a, m, w) \o Concat(L, m + 1, b, w)

\* only the text of a string may go on in the next record: tokens of c, in rows of w columns, which do not
Whole(t, w) ==
    \A i \in DOMAIN t :
      CASE t[i][1] = 0 -> TRUE
        [] t[i][1] = 1 -> (t[i][2] - 1) \div w = (t[i][3] - 1) \div w
        [] OTHER -> LET n == t[i][3] - t[i][2] + 1 dg == IF n < 10 THEN 1 ELSE IF n < 100 THEN 2 ELSE IF n < 1000 THEN 3 ELSE 4 IN
                    (t[i][2] - 2 - dg) \div w = (t[i][2] - 2) \div w

(***************************** globals *************************************)
DelimOk(c) == c > 32 /\ c < 127 /\ ~IsDigit(c) /\ c \notin {43, 45, 46, 68, 69, 72}
\* field number (2 = third field ...) -> name; strings, integers and reals
GStr  == [idss |-> 1, fname |-> 2, nsys |-> 3, prep |-> 4, idrs |-> 10, uname |-> 13, cdate |-> 16, author |-> 19, org |-> 20, mdate |-> 23, note |-> 24]
GInt  == [bits |-> 5, e1 |-> 6, d1 |-> 7, e2 |-> 8, d2 |-> 9, units |-> 12, lwg |-> 14, ver |-> 21, draft |-> 22]
GReal == [scale |-> 11, lw |-> 15, res |-> 17, maxc |-> 18]
GDef  == [bits |-> BAD, e1 |-> 0, d1 |-> 0, e2 |-> 0, d2 |-> 0, units |-> 1, lwg |-> 1, ver |-> 3, draft |-> 0, scale |-> <<1, 0>>, lw |-> <<>>, res |-> <<>>, maxc |-> <<0, 0>>]
GDelims(c) ==
    LET one(i, d) == i + 2 <= Len(c) /\ c[i] = 49 /\ c[i + 1] = cH
        pd == IF c[1] = 44 THEN 44 ELSE IF one(1, 0) THEN c[3] ELSE 0
        i == IF c[1] = 44 THEN 2 ELSE 5
        ok1 == pd # 0 /\ DelimOk(pd) /\ c[i - 1] = pd
        rd == IF c[i] = pd THEN 59 ELSE IF one(i, 0) THEN c[i + 2] ELSE 0
        j == IF c[i] = pd THEN i + 1 ELSE i + 4
        ok2 == ok1 /\ rd # 0 /\ DelimOk(rd) /\ rd # pd /\ c[j - 1] = pd IN
    IF ~ok1 THEN [ok |-> FALSE, pd |-> 0, rd |-> 0, i |-> 0] ELSE [ok |-> ok2, pd |-> pd, rd |-> rd, i |-> j]
Globals(c) ==
    LET q == GDelims(c)
        R == Toks(c, q.i, q.pd, q.rd, <<>>)
        n == Len(R.t)
        tk(i) == IF i <= n THEN R.t[i] ELSE <<0, 1, 0>>
        S == [f \in DOMAIN GStr |-> TokStr(c, tk(GStr[f]))]
        N == [f \in DOMAIN GInt |-> LET v == TokInt(c, tk(GInt[f])) IN IF v = BLANK THEN GDef[f] ELSE v]
        X == [f \in DOMAIN GReal |-> IF tk(GReal[f])[1] = 0 THEN GDef[f] ELSE TokReal(c, tk(GReal[f]))] IN
    IF ~q.ok \/ (~R.ok /\ \A i \in q.i..Len(c) : c[i] # q.rd) THEN [ok |-> FALSE, soft |-> FALSE]
    ELSE IF ~R.ok THEN [ok |-> FALSE, soft |-> TRUE]
    ELSE [ok |-> TRUE, odd |-> \/ n > 24 \/ n < 17 \/ (\E f \in DOMAIN N : N[f] = BAD)
                               \/ (\E f \in DOMAIN X : X[f] = <<>>) \/ (\E f \in DOMAIN S : S[f] = <<-1>>)
                               \/ (\E f \in {"idss", "fname", "nsys", "cdate"} : S[f] = <<>>)
                               \/ N.units \notin (1..11) \ {3} \/ (X.scale # <<>> /\ X.scale[1] \notin 1..9999),
          n |-> n, pd |-> q.pd, rd |-> q.rd, s |-> [S EXCEPT !.idrs = IF @ = <<>> THEN S.idss ELSE @], i |-> N, r |-> X,
          noidrs |-> S.idrs = <<>>, whole |-> Whole(R.t, 72),
          rest |-> \A k \in R.e..Len(c) : c[k] = 32]

(**************************** entities *************************************)
Supported == {100, 102, 104, 110, 120, 122, 124, 126, 128, 142, 144, 154, 164, 180, 308, 314, 406, 408}
NReal == [k \in {100, 104, 110, 124, 154, 314} |-> CASE k = 100 -> 7 [] k = 104 -> 11 [] k = 110 -> 6 [] k = 124 -> 12 [] k = 154 -> 8 [] OTHER -> 3]
\* the tokens of kind k which count others
CountAt(k) == CASE k \in {102, 180} -> {2} [] k \in {144, 308} -> {4} [] k = 126 -> {2, 3} [] k = 128 -> {2, 3, 4, 5} [] OTHER -> {}
\* parameters of an entity of kind k from the tokens T of its text c: p the reals, s and l the pointers as
\* written (in a boolean tree operators are negative and operands positive), n the name, x the next token
Params(k, c, T) ==
    LET n == Len(T)
        I(i) == IF i <= n THEN TokInt(c, T[i]) ELSE BLANK
        R(i) == IF i <= n THEN TokReal(c, T[i]) ELSE <<>>
        RR(i, cnt) == [q \in 1..cnt |-> R(i + q - 1)]
        II(i, cnt) == [q \in 1..cnt |-> I(i + q - 1)]
        N(v) == IF v \in 0..10000 THEN v ELSE 0
        DI(i) == DecInt(I(i))
        H(i) == IF i <= n THEN TokStr(c, T[i]) ELSE <<>>
        mk(p, s, l, nm, x) == [p |-> p, s |-> s, l |-> l, n |-> nm, x |-> x]
        z == <<0, 0, 0>> IN
    CASE k \in {100, 104, 110, 124, 154} -> mk(RR(2, NReal[k]), z, <<>>, <<>>, 2 + NReal[k])
      [] k = 314 -> mk(RR(2, 3), z, <<>>, H(5), 6)
      [] k = 122 -> mk(RR(3, 3), <<I(2), 0, 0>>, <<>>, <<>>, 6)
      [] k = 120 -> mk(RR(4, 2), <<I(2), I(3), 0>>, <<>>, <<>>, 6)
      [] k = 164 -> mk(RR(3, 4), <<I(2), 0, 0>>, <<>>, <<>>, 7)
      [] k = 408 -> mk(RR(3, 4), <<I(2), 0, 0>>, <<>>, <<>>, 7)
      [] k = 142 -> mk(<<DI(2), DI(6)>>, <<I(3), I(4), I(5)>>, <<>>, <<>>, 7)
      [] k = 144 -> mk(<<DI(3)>>, <<I(2), I(5), 0>>, II(6, N(I(4))), <<>>, 6 + N(I(4)))
      [] k = 102 -> mk(<<>>, z, II(3, N(I(2))), <<>>, 3 + N(I(2)))
      [] k = 180 -> mk(<<>>, z, [q \in 1..N(I(2)) |-> IF I(2 + q) = BAD THEN BAD ELSE -I(2 + q)], <<>>, 3 + N(I(2)))
      [] k = 308 -> mk(<<DI(2)>>, z, II(5, N(I(4))), H(3), 5 + N(I(4)))
      [] k = 406 -> mk(<<DI(2)>>, z, <<>>, H(3), 4)
      [] k = 126 ->
            LET K == N(I(2)) M == N(I(3))
                nk == K + M + 2 w0 == 8 + nk c0 == w0 + K + 1 v0 == c0 + 3 * (K + 1)
                poly == I(6) = 1 IN
            mk(<<DecInt(K + 1), DecInt(M + 1), DecInt(1 - I(6)), DI(5), DI(7), R(v0), R(v0 + 1)>> \o RR(8, nk)
               \o (IF poly THEN RR(c0, 3 * (K + 1))
                   ELSE [q \in 1..(4 * (K + 1)) |-> IF q % 4 = 0 THEN R(w0 + (q \div 4) - 1) ELSE R(c0 + 3 * ((q - 1) \div 4) + ((q - 1) % 4))]),
               z, <<>>, <<>>, v0 + 5)
      [] k = 128 ->
            LET K1 == N(I(2)) K2 == N(I(3)) M1 == N(I(4)) M2 == N(I(5))
                n1 == K1 + M1 + 2 n2 == K2 + M2 + 2 nc == (K1 + 1) * (K2 + 1)
                k2 == 11 + n1 w0 == k2 + n2 c0 == w0 + nc v0 == c0 + 3 * nc
                poly == I(8) = 1 IN
            mk(<<DecInt(K1 + 1), DecInt(K2 + 1), DecInt(M1 + 1), DecInt(M2 + 1), DecInt(1 - I(8)), DI(6), DI(7), DI(9), DI(10)>> \o RR(v0, 4)
               \o RR(11, n1) \o RR(k2, n2)
               \o (IF poly THEN RR(c0, 3 * nc)
                   ELSE [q \in 1..(4 * nc) |-> IF q % 4 = 0 THEN R(w0 + (q \div 4) - 1) ELSE R(c0 + 3 * ((q - 1) \div 4) + ((q - 1) % 4))]),
               z, <<>>, <<>>, v0 + 4)

FCurves == {100, 102, 104, 110, 126}
FSolids == {150, 152, 154, 156, 158, 160, 162, 164, 168, 180, 186, 430}
FSurfs  == {106, 108, 114, 118, 120, 122, 128, 140, 143, 190, 192, 194, 196, 198}
\* may the i-th slot (8 transform, 9 colour, 10 list, 11 optional property) of kind k point to kind j?
MayPoint(k, i, j) ==
    CASE i = 8 -> j = 124 [] i = 9 -> j = 314 [] i = 11 -> j = 406
      [] k = 120 -> IF i = 1 THEN j = 110 ELSE j \in FCurves
      [] k \in {122, 164} -> j \in FCurves
      [] k = 144 -> IF i = 1 THEN j \in FSurfs ELSE j = 142
      [] k = 102 -> j \in FCurves \ {102}
      [] k = 180 -> j \in FSolids
      [] k = 408 -> j = 308
      [] OTHER -> TRUE

\* one entity: DE records a and b (DE sequence number seq), Parameter records from line p0 on
Entity(L, F, G, kinds, q) ==
    LET a == L[F.d + 2 * q - 2] b == L[F.d + 2 * q - 1]
        seq == 2 * q - 1
        ne == Len(kinds)
        k == kinds[q]
        pp == Field(a, 1) cnt == Field(b, 3)
        fit == pp \in 1..9999999 /\ cnt \in 1..99999 /\ F.p + pp + cnt - 1 <= F.t
        p0 == F.p + pp - 1
        back == \A i \in p0..(p0 + cnt - 1) : L[i][65] = 32 /\ IntIn(L[i], 66, 72) = seq
        c == TLCEval(Concat(L, p0, p0 + cnt - 1, 64))
        T == Toks(c, 1, G.pd, G.rd, <<>>)
        K == TLCEval(Params(k, c, T.t))
        \* optional entities
        nt == Len(T.t)
        TI(i) == IF i <= nt THEN TokInt(c, T.t[i]) ELSE BLANK
        na0 == TI(K.x) na == IF na0 \in 0..1000 THEN na0 ELSE 0
        nb0 == TI(K.x + 1 + na) nb == IF nb0 \in 0..1000 THEN nb0 ELSE 0
        ext == [i \in 1..(na + nb) |-> TI(IF i <= na THEN K.x + i ELSE K.x + 1 + i)]
        last == IF K.x + na >= nt THEN K.x + na ELSE K.x + na + 1 + nb
        \* comment lines
        cl == ((T.e - 2) \div 64) + 2       \* the first line after the one with the record delimiter
        com == [i \in 1..(cnt - cl + 1) |-> SubSeq(c, 64 * (cl + i - 2) + 1, 64 * (cl + i - 1))]
        st == FieldD(a, 8, 0)
        f4 == FieldD(a, 3, 0) f5 == FieldD(a, 4, 0) f6 == FieldD(a, 5, 0) f7 == FieldD(a, 6, 0) f8 == FieldD(a, 7, 0)
        f12 == FieldD(b, 1, 0) f13 == FieldD(b, 2, 0) f15 == FieldD(b, 4, 0) f19 == FieldD(b, 8, 0)
        ints == {f4, f5, f6, f7, f8, st, f12, f13, f15, f19}
        Ptr(v) == IF v = 0 THEN 0 ELSE IF v \in 1..(2 * ne) /\ v % 2 = 1 THEN (v + 1) \div 2 ELSE -1
        \* Directory fields which do not apply to a kind are ignored
        na8 == k \in {314, 406} na6 == k \in {124, 314, 406}
        badptr(i, v) == v # BAD /\ LET r == Ptr(v) IN r = -1 \/ (r # 0 /\ ~MayPoint(k, i, kinds[r]))
        need(i, v) == badptr(i, v) \/ v = 0
        nil(v) == IF v = BLANK THEN 0 ELSE v
        slots == [i \in 1..3 |-> nil(K.s[i])]
        lst == [i \in DOMAIN K.l |-> K.l[i]]
    IN
    IF ~fit THEN [bad |-> {"parameter pointer"}, pp |-> pp, cnt |-> cnt]
    ELSE IF ~back \/ Field(b, 0) # Field(a, 0) THEN [bad |-> {"back pointer or type"}, pp |-> pp, cnt |-> cnt]
    ELSE IF k \notin Supported THEN [bad |-> {}, odd |-> TRUE, pp |-> pp, cnt |-> cnt]
    ELSE IF ~T.ok /\ \E i \in DOMAIN c : c[i] = G.rd THEN [bad |-> {}, odd |-> TRUE, pp |-> pp, cnt |-> cnt]      \* a misplaced string
    ELSE IF ~T.ok \/ T.t = <<>> \/ TI(1) # k THEN [bad |-> {"parameter text"}, pp |-> pp, cnt |-> cnt]
    \* a count which is not a natural number: what follows cannot be told apart
    ELSE IF (\E i \in CountAt(k) : TI(i) \notin 0..10000) \/ ({na0, nb0} \ (0..1000 \cup {BLANK})) # {} THEN [bad |-> {}, odd |-> TRUE, pp |-> pp, cnt |-> cnt]
    ELSE
    [bad |-> (IF (~na8 /\ badptr(8, f7)) \/ (~na6 /\ f6 \notin {0, BAD}) \/ (~na6 /\ f8 \notin {0, BAD}) \/ (f13 # BAD /\ f13 < 0 /\ badptr(9, -f13)) THEN {"directory pointer"} ELSE {})
        \cup (IF \E i \in 1..3 : badptr(i, slots[i]) THEN {"pointer"} ELSE {})
        \cup (IF \E i \in DOMAIN lst : IF k = 180 /\ lst[i] < 0 THEN FALSE ELSE need(10, lst[i]) THEN {"list pointer"} ELSE {})
        \cup (IF \E i \in DOMAIN ext : need(11, ext[i]) THEN {"optional pointer"} ELSE {}),
     odd |-> \/ BAD \in ints \/ (\E i \in 1..3 : slots[i] = BAD) \/ BAD \in Rng(lst) \/ BAD \in Rng(ext) \/ f4 \notin 0..5 \/ f5 < 0 \/ f12 < 0 \/ f13 > 8 \/ f15 < 0 \/ f19 < 0 \/ st < 0
             \/ st % 100 > 2 \/ (st \div 100) % 100 > 6 \/ (st \div 10000) % 100 > 3 \/ (st \div 1000000) > 1
             \/ FieldD(a, 2, 0) # 0
             \/ (\E i \in DOMAIN K.p : K.p[i] = <<>>) \/ K.n = <<-1>> \/ last # nt + (IF K.x > nt THEN last - nt ELSE 0)
             \/ na0 = BAD \/ nb0 = BAD \/ na > 0 \/ K.x > nt + (IF k = 314 THEN 2 ELSE 1),
     k |-> k, x |-> IF na8 THEN 0 ELSE Ptr(f7), c |-> IF f13 < 0 THEN Ptr(-f13) ELSE 0,
     s |-> [i \in 1..3 |-> Ptr(slots[i])],
     l |-> [i \in DOMAIN lst |-> IF k = 180 /\ lst[i] < 0 THEN lst[i] ELSE Ptr(lst[i])],
     e |-> [i \in DOMAIN ext |-> Ptr(ext[i])],
     \* dep, use, hier, vis, color, level, lineweight, subscript, line font, form
     a |-> <<(st \div 10000) % 100, (st \div 100) % 100, st % 100, IF (st \div 1000000) % 100 = 0 THEN 1 ELSE 0,
             IF f13 < 0 THEN 0 ELSE f13, f5, f12, f19, f4, f15>>,
     w |-> Whole(T.t, 64), p |-> K.p, n |-> K.n, b |-> LStrip(SubSeq(b, 57, 64)), m |-> com, pp |-> pp, cnt |-> cnt]

\* the lines of a whole file
Decode(lines) ==
    LET L == TLCEval([i \in DOMAIN lines |-> Chop(lines[i])])
        F == TLCEval(Frame(L))
        none == [start |-> <<>>, G |-> [ok |-> FALSE], ents |-> <<>>] IN
    IF F.bad # {} THEN none @@ [ok |-> FALSE, bad |-> F.bad, odd |-> FALSE, counts |-> FALSE]
    ELSE
    LET G == TLCEval(Globals(TLCEval(Concat(L, F.g, F.d - 1, 72))))
        ne == (F.p - F.d) \div 2
        kinds == TLCEval([q \in 1..ne |-> Field(L[F.d + 2 * q - 2], 0)]) IN
    IF ~G.ok THEN none @@ [ok |-> FALSE, bad |-> IF G.soft THEN {} ELSE {"global"}, odd |-> G.soft, counts |-> FALSE]
    ELSE
    LET ents == TLCEval([q \in 1..ne |-> Entity(L, F, G, kinds, q)])
        contig == \A q \in 1..ne : ents[q].pp = IF q = 1 THEN 1 ELSE ents[q - 1].pp + ents[q - 1].cnt
        total == ents[ne].pp + ents[ne].cnt = F.t - F.p + 1
        bad == UNION { ents[q].bad : q \in 1..ne }
               \cup (IF ~contig \/ ~total THEN {"parameter section"} ELSE {})
        odd == bad = {} /\ ((\E i \in DOMAIN L : 0 \in Rng(L[i]))       \* not a text
                             \/ G.odd \/ ~G.rest \/ \E q \in 1..ne : ents[q].odd) IN
    [ok |-> bad = {} /\ ~odd, bad |-> bad, odd |-> odd, counts |-> Counts(L, F),
     start |-> [i \in 1..(F.g - 1) |-> SubSeq(L[i], 1, 72)], G |-> G, ents |-> ents,
     sec |-> [D |-> SubSeq(L, F.d, F.p - 1), P |-> SubSeq(L, F.p, F.t - 1), T |-> L[F.t]]]
=============================================================================
