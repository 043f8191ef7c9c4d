---------------------------- MODULE IdfOwner ----------------------------
(* The owner rules of the IDF layer: a state machine over one board opened *)
(* by an electrical (cad 0) or mechanical (cad 1) CAD, its outline         *)
(* objects, drilled holes and components.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NOB, NCO
UNOWNED == 0
MCAD == 1
ECAD == 2
\* placement of a component
UNPLACED == 0
PLACED == 1
PMCAD == 2
PECAD == 3
UNSET == 4
\* outline kinds: 1 board 2 other 3 route 4 placement 5 route keepout 6 via keepout 7 placement keepout 8 group 9 component outline
NOSIDE == 5
NoObj == [k |-> 0, par |-> 0, own |-> 0, th |-> 0, sd |-> NOSIDE, nm |-> 0, lp |-> <<>>]
NewObj(k, par) == [NoObj EXCEPT !.k = k, !.par = par, !.th = IF k \in {4, 7} THEN -1000 ELSE 0]
NoComp == [st |-> 0, ref |-> 0, pl |-> UNSET, pos |-> <<>>, dr |-> <<>>, of |-> <<>>]
Start(c) == [cad |-> c, o |-> [i \in 1..NOB |-> IF i = 1 THEN [NewObj(1, 1) EXCEPT !.th = 1600] ELSE NoObj], d |-> <<>>, c |-> [i \in 1..NCO |-> NoComp]]
(* the rule *)
Match(cad, own) == own = UNOWNED \/ (own = MCAD /\ cad = 1) \/ (own = ECAD /\ cad = 0)
MayO(S, i) == S.o[i].par = 1 /\ (S.o[i].k = 9 \/ Match(S.cad, S.o[i].own))
MayC(S, i) == S.c[i].pl \in {UNPLACED, PLACED, UNSET} \/ (S.c[i].pl = PMCAD /\ S.cad = 1) \/ (S.c[i].pl = PECAD /\ S.cad = 0)
No(S) == [r |-> 0, S |-> S]
Yes(S) == [r |-> 1, S |-> S]
If(c, S, T) == IF c THEN Yes(T) ELSE No(S)
Del(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Idx(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
Has(s, x) == \E i \in DOMAIN s : s[i] = x
Keep(s, T(_)) == SelectSeq(s, T)
SetO(S, i, o) == [S EXCEPT !.o[i] = o]
SLOT == 99
Cleared(o) == [o EXCEPT !.own = UNOWNED, !.lp = <<>>, !.sd = NOSIDE, !.nm = 0, !.th = IF o.k \in {4, 7, 8} THEN 0 ELSE @]
(* the order of the components of a board is that of their designators *)
InB(S) == { i \in 1..NCO : S.c[i].st = 2 }
Apply(S, op, a) ==
    CASE op = "mk" -> Yes(SetO(S, a[1], NewObj(a[2], a[3])))
      [] op = "so" -> If(MayO(S, a[1]), S, SetO(S, a[1], [S.o[a[1]] EXCEPT !.own = a[2]]))
      [] op = "st" -> If(MayO(S, a[1]) /\ a[2] >= 0, S, SetO(S, a[1], [S.o[a[1]] EXCEPT !.th = a[2]]))
      [] op = "bt" -> If(MayO(S, 1) /\ a[1] > 0, S, SetO(S, 1, [S.o[1] EXCEPT !.th = a[1]]))
      [] op = "ss" -> If(MayO(S, a[1]), S, SetO(S, a[1], [S.o[a[1]] EXCEPT !.sd = a[2]]))
      [] op = "sn" -> If(MayO(S, a[1]), S, SetO(S, a[1], [S.o[a[1]] EXCEPT !.nm = a[2]]))
      [] op = "sh" -> If(MayO(S, a[1]), S, SetO(S, a[1], [S.o[a[1]] EXCEPT !.th = a[2]]))
      [] op = "ao" -> If(MayO(S, a[1]) /\ ~Has(S.o[a[1]].lp, a[2]), S, SetO(S, a[1], [S.o[a[1]] EXCEPT !.lp = Append(@, a[2])]))
      [] op = "dp" -> LET q == S.o[a[1]].lp IN
                      If(MayO(S, a[1]) /\ Has(q, a[2]) /\ (Idx(q, a[2]) = 1 => Len(q) = 1), S,
                         SetO(S, a[1], [S.o[a[1]] EXCEPT !.lp = IF Has(q, a[2]) THEN Del(q, Idx(q, a[2])) ELSE q]))
      [] op = "di" -> LET q == S.o[a[1]].lp n == a[2] + 1 IN
                      If(MayO(S, a[1]) /\ n <= Len(q) /\ (n = 1 => Len(q) = 1), S, SetO(S, a[1], [S.o[a[1]] EXCEPT !.lp = Del(q, n)]))
      [] op = "cl" -> If(MayO(S, a[1]), S, SetO(S, a[1], Cleared(S.o[a[1]])))
      [] op = "as" -> Yes(SetO(S, 1, [S.o[1] EXCEPT !.lp = Append(@, SLOT)]))  \* a slot bypasses the rule (documented)
      [] op = "ad" -> Yes([S EXCEPT !.d = Append(@, a)])
      [] op = "dd" -> LET Hit(x) == x[1] = a[1] /\ x[2] = a[2] /\ x[3] = a[3] /\ Match(S.cad, x[4])
                          Rest(x) == ~Hit(x) IN
                      If(\E i \in DOMAIN S.d : Hit(S.d[i]), S, [S EXCEPT !.d = Keep(@, Rest)])
      [] op = "nc" -> Yes([S EXCEPT !.c[a[1]] = [NoComp EXCEPT !.st = 1, !.ref = a[2]]])
      [] op = "ac" -> If(\A j \in InB(S) : S.c[j].ref # S.c[a[1]].ref, S, [S EXCEPT !.c[a[1]].st = 2])
      [] op = "dc" -> If(S.c[a[1]].st = 2 /\ MayC(S, a[1]), S, [S EXCEPT !.c[a[1]] = [NoComp EXCEPT !.st = 3]])
      [] op = "dx" -> LET A == InB(S) n == a[1] + 1 W == { i \in A : Cardinality({ j \in A : S.c[j].ref < S.c[i].ref }) = a[1] } IN
                      IF W = {} THEN No(S) ELSE LET i == CHOOSE i \in W : TRUE IN If(MayC(S, i), S, [S EXCEPT !.c[i] = [NoComp EXCEPT !.st = 3]])
      [] op = "cp" -> If(MayC(S, a[1]) /\ a[2] \in 0..3, S, [S EXCEPT !.c[a[1]].pl = a[2]])
      [] op = "cs" -> If(MayC(S, a[1]) /\ a[5] \in {0, 1} /\ S.c[a[1]].pos = <<>>, S, [S EXCEPT !.c[a[1]].pos = SubSeq(a, 2, 5)])
      [] op = "cr" -> If(MayC(S, a[1]), S, [S EXCEPT !.c[a[1]].ref = a[2]])
      [] op = "ca" -> Yes([S EXCEPT !.c[a[1]].dr = Append(@, SubSeq(a, 2, 5))])
      [] op = "cd" -> LET Hit(x) == x[1] = a[2] /\ x[2] = a[3] /\ x[3] = a[4] /\ Match(S.cad, x[4])
                          Rest(x) == ~Hit(x) IN
                      If(MayC(S, a[1]) /\ \E i \in DOMAIN S.c[a[1]].dr : Hit(S.c[a[1]].dr[i]), S, [S EXCEPT !.c[a[1]].dr = Keep(@, Rest)])
      [] op = "cq" -> If(MayC(S, a[1]) /\ a[2] + 1 <= Len(S.c[a[1]].dr) /\ Match(S.cad, S.c[a[1]].dr[a[2] + 1][4]), S, [S EXCEPT !.c[a[1]].dr = Del(@, a[2] + 1)])
      [] op = "co" -> Yes([S EXCEPT !.c[a[1]].of = Append(@, <<0, 0, 0, 0, 0>>)])
      [] op \in {"cx", "cy"} -> If(MayC(S, a[1]) /\ a[2] + 1 <= Len(S.c[a[1]].of), S, [S EXCEPT !.c[a[1]].of = Del(@, a[2] + 1)])
      [] op = "cf" -> If(MayC(S, a[1]), S, [S EXCEPT !.c[a[1]].of[a[2] + 1] = SubSeq(a, 3, 6) \o <<@[5]>>])
      [] op = "cu" -> If(MayC(S, a[1]), S, [S EXCEPT !.c[a[1]].of[a[2] + 1][5] = a[3]])
      [] OTHER -> No(S)
(* what the rule promises, over any step: nothing the other side owns changes except by adding to it *)
Protected(S, T) ==
    /\ \A i \in 1..NOB : S.o[i].k \notin {0, 9} /\ ~Match(S.cad, S.o[i].own) =>
         T.o[i] = [S.o[i] EXCEPT !.lp = T.o[i].lp] /\ (T.o[i].lp = S.o[i].lp \/ (i = 1 /\ T.o[i].lp = Append(S.o[i].lp, SLOT)))
    /\ \A i \in DOMAIN S.d : ~Match(S.cad, S.d[i][4]) => \E j \in DOMAIN T.d : T.d[j] = S.d[i]
    /\ \A i \in 1..NCO : S.c[i].st \in {1, 2} /\ ~MayC(S, i) =>
         /\ T.c[i].ref = S.c[i].ref /\ T.c[i].pl = S.c[i].pl /\ T.c[i].pos = S.c[i].pos /\ T.c[i].st \in {S.c[i].st, 2}
         /\ \A j \in DOMAIN S.c[i].dr : T.c[i].dr[j] = S.c[i].dr[j]
         /\ \A j \in DOMAIN S.c[i].of : T.c[i].of[j] = S.c[i].of[j]
=============================================================================
