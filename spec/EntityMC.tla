----------------------------- MODULE EntityMC ------------------------------
(* Exhaustive exploration of EntityGraph for small fixed populations: every *)
(* link, relink, unlink, delete and cull over all operand combinations.    *)
(* Checks the invariants in every reachable state and (when EMIT) prints   *)
(* every explored transition as an operation sequence for replay into the  *)
(* real library.                                                           *)
EXTENDS EntityGraph, Json
CONSTANTS Family, EMIT, MAXD, FULLCULL
VARIABLES S, d, hist

\* population: kind, start point, end point, owner model (0: unlinked by its creator)
Pop == CASE Family = "chain"  -> << <<102,0,0,1>>, <<110,0,1,1>>, <<110,1,2,1>>, <<110,2,0,1>>, <<164,0,0,1>> >>
         [] Family = "chain2" -> << <<102,0,0,1>>, <<102,0,0,1>>, <<110,0,1,1>>, <<110,1,0,1>>, <<100,0,0,1>> >>
         [] Family = "trim"   -> << <<144,0,0,1>>, <<142,0,0,1>>, <<142,0,0,1>>, <<128,0,0,1>>, <<110,0,1,1>> >>
         [] Family = "ext"    -> << <<122,0,0,1>>, <<120,0,0,1>>, <<110,0,1,1>>, <<110,1,2,1>>, <<124,0,0,1>> >>
         [] Family = "solid"  -> << <<180,0,0,1>>, <<180,0,0,1>>, <<154,0,0,1>>, <<164,0,0,1>>, <<100,0,0,1>> >>
         [] Family = "assy"   -> << <<308,0,0,1>>, <<308,0,0,1>>, <<408,0,0,1>>, <<408,0,0,1>> >>
         [] Family = "assy2"  -> << <<308,0,0,1>>, <<408,0,0,1>>, <<144,0,0,1>>, <<128,0,0,1>> >>
         [] Family = "attr"   -> << <<110,0,1,1>>, <<124,0,0,1>>, <<124,0,0,1>>, <<314,0,0,1>>, <<406,0,0,1>> >>
         [] Family = "prop"   -> << <<308,0,0,1>>, <<406,0,0,1>>, <<406,0,0,1>>, <<124,0,0,1>> >>
         [] Family = "xform"  -> << <<124,0,0,1>>, <<124,0,0,1>>, <<124,0,0,1>>, <<110,0,1,1>> >>
         [] Family = "place"  -> << <<124,0,0,1>>, <<124,0,0,1>>, <<102,0,0,1>>, <<110,0,1,1>>, <<110,1,0,1>> >>
         [] Family = "own"    -> << <<142,0,0,1>>, <<110,0,1,2>>, <<128,0,0,0>>, <<124,0,0,1>> >>
         [] Family = "own2"   -> << <<308,0,0,1>>, <<408,0,0,2>>, <<314,0,0,2>> >>
NM == 2
N  == Len(Pop)
Ids == 1..N
NewOp(i) == <<"new", IF Pop[i][4] = 0 THEN 1 ELSE Pop[i][4], i, Pop[i][1], Pop[i][2], Pop[i][3]>>
RECURSIVE Build(_, _, _)
Build(T, h, i) ==
    IF i > N THEN <<T, h>>
    ELSE LET T1 == Apply(T, "new", Tail(NewOp(i))).S IN
         IF Pop[i][4] # 0 THEN Build(T1, Append(h, NewOp(i)), i + 1)
         ELSE Build(Apply(T1, "unl", <<1, i>>).S, h \o <<NewOp(i), <<"unl", 1, i>>>>, i + 1)
\* the transforms of a population get different matrices
TmOp(i) == <<"tm", i>> \o (CASE i = 1 -> <<0,-1,0,1000, 1,0,0,0, 0,0,1,0>> [] i = 2 -> <<1,0,0,0, 0,0,-1,3000, 0,1,0,500>>
                              [] OTHER -> <<0,0,1,0, 1,0,0,-1000, 0,1,0,2000>>)
RECURSIVE Mats(_, _)
Mats(B, i) == IF i > N THEN B
              ELSE IF Pop[i][1] # 124 THEN Mats(B, i + 1)
              ELSE Mats(<<Apply(B[1], "tm", Tail(TmOp(i))).S, Append(B[2], TmOp(i))>>, i + 1)
Start == Mats(Build(Empty(NM, N), <<>>, 1), 1)

L == Live(S)
K(i) == S.e[i].k
C0 == L \cup {0}
SetOps == { <<"set", p, i, c>> : p \in L, i \in 1..3, c \in C0 }
OkSet(o) == LET k == K(o[2]) IN
    CASE k = 120 -> o[3] \in {1, 2} [] k \in {122, 164, 408} -> o[3] = 1 [] k = 142 -> TRUE [] k = 144 -> o[3] \in {1, 2} [] OTHER -> FALSE
Lists == { p \in L : K(p) \in {102, 144, 180, 308} }
Ops ==
    { o \in SetOps : OkSet(o) }
    \cup { <<"app", p, c>> : p \in Lists, c \in C0 }
    \cup { <<"rem", p, c>> : p \in { q \in L : K(q) \in {144, 308} }, c \in L }
    \cup { <<"del", m, c>> : m \in 1..NM, c \in L }
    \cup (IF Family \in {"attr", "prop", "ext", "own", "own2", "xform", "place"} THEN { <<"set", p, 8, c>> : p \in L, c \in { x \in L : K(x) = 124 } \cup {0} } ELSE {})
    \cup (IF Family \in {"attr", "own2"} THEN { <<"set", p, 9, c>> : p \in L, c \in { x \in L : K(x) = 314 } \cup {0} } ELSE {})
    \cup (IF Family \in {"attr", "prop"} THEN { <<"xap", p, c>> : p \in L, c \in C0 } \cup { <<"xrm", p, c>> : p \in L, c \in L } ELSE {})
    \cup (IF Family = "solid" THEN { <<"top", p, 1>> : p \in { q \in L : K(q) = 180 /\ Len(S.e[q].l) < 4 } } ELSE {})
    \cup (IF Family \in {"own", "own2"} THEN
             { <<"add", m, c>> : m \in 1..NM, c \in L } \cup { <<"unl", m, c>> : m \in 1..NM, c \in L }
             \cup { <<"free", c>> : c \in { x \in L : S.e[x].o = 0 } } \cup { <<"clear", m>> : m \in 1..NM } ELSE {})
    \cup { <<"cull", m, v>> : m \in 1..NM, v \in {0, 1} }

Init == S = Start[1] /\ d = 0 /\ hist = IF EMIT THEN Start[2] ELSE <<>>
Next == /\ d < MAXD
        /\ d' = d + 1
        /\ \E o \in Ops :
              /\ S' = Apply(S, o[1], Tail(o)).S
              /\ hist' = IF EMIT THEN Append(hist, o) ELSE hist
Spec == Init /\ [][Next]_<<S, d, hist>>
View == S
EmitT == EMIT => PrintT("T " \o ToJson(<<hist', IF S' = S THEN 1 ELSE 0>>))
\* E05: a refused operation leaves everything but the released slot alone
LinkSet(T) == { <<p, c>> \in (Live(T) \X Live(T)) : c \in Links(T.e[p]) }
Refusal == \A o \in Ops :
    LET R == Apply(S, o[1], Tail(o)) IN
    R.r = 0 =>
       \/ R.S = S
       \/ /\ o[1] = "set"
          /\ \E c \in Live(S) : LinkSet(S) \ LinkSet(R.S) = {<<o[2], c>>}
          /\ LinkSet(R.S) \subseteq LinkSet(S)
          /\ R.S.m = S.m
\* E02: only del / free / cull / clear destroy, and del destroys exactly one
Conserve == \A o \in Ops :
    LET R == Apply(S, o[1], Tail(o)) gone == Live(S) \ Live(R.S) IN
    /\ o[1] \in {"set", "app", "rem", "xap", "xrm", "top", "add", "unl"} => gone = {}
    /\ o[1] \in {"del", "free"} /\ R.r = 1 => gone = {o[Len(o)]}
    /\ o[1] = "clear" => gone = Range(S.m[o[2]])
Inv == OneOwner(S) /\ NoDangling(S) /\ LinkedOnce(S) /\ NoTwoCycle(S) /\ NoNestCycle(S) /\ ChainOk(S)
InvC == Refusal /\ Conserve
InvCull == FULLCULL => CullOk(S)
=============================================================================
