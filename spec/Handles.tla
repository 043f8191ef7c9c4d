----------------------------- MODULE Handles -----------------------------
(* The API layer: handle objects bound to entities, models, segments and    *)
(* outlines.  H[h] is a handle object (k: what it is a handle of; t: the    *)
(* type it accepts; b: the live object it is bound to, 0: invalid; p: its   *)
(* parent model).  O[i] is a segment or outline (o: the outline owning it). *)
(* A handle is valid exactly while its object lives: Norm.                  *)
EXTENDS EntityGraph
NoH == [k |-> "", t |-> 0, b |-> 0, p |-> 0]
NoO == [k |-> "", o |-> 0]
OutK == {"out", "pcb"}
RECURSIVE KillO(_, _)
KillAll(O, q) == LET RECURSIVE f(_, _) f(P, r) == IF r = {} THEN P ELSE LET i == CHOOSE x \in r : TRUE IN f(KillO(P, i), r \ {i}) IN f(O, q)
KillO(O, i) == IF O[i].k = "" THEN O ELSE KillAll([O EXCEPT ![i] = NoO], { j \in DOMAIN O : O[j].o = i })
MAlive(S, m) == m # 0 /\ S.m[m] # <<-1>>
Norm(S, H, O) ==
    [h \in DOMAIN H |->
        LET x == H[h]
            ok == CASE x.k = "ent" -> x.b # 0 /\ S.e[x.b].k # 0
                    [] x.k = "model" -> MAlive(S, x.b)
                    [] x.k = "" -> FALSE
                    [] OTHER -> x.b # 0 /\ O[x.b].k # "" IN
        [x EXCEPT !.b = IF ok THEN @ ELSE 0, !.p = IF MAlive(S, @) THEN @ ELSE 0]]
\* an entity created through a handle: in a model, or on its own
NewAt(S, m, i, k) == IF m # 0 THEN NewEnt(S, m, i, k, 0, 1) ELSE [S EXCEPT !.e[i] = [Dead EXCEPT !.k = k, !.a = DefA(k), !.g = DefG(k, 0, 1)]]
ApiKinds == {100, 102, 104, 110, 120, 122, 124, 126, 128, 142, 144, 308, 314, 406, 408}
NewApi == ApiKinds \ {406}      \* what NewAPIEntity offers

\* X = [S, H, O]; the result also has r
Rs(r, S, H, O) == [r |-> r, S |-> S, H |-> Norm(S, H, O), O |-> O]
ApplyH(S, H, O, op, a) ==
    LET no == Rs(0, S, H, O) yes == Rs(1, S, H, O)
        h == IF a = <<>> THEN 0 ELSE a[1]
        b == IF h \in DOMAIN H THEN H[h].b ELSE 0
        arg(c, hc) == IF hc # 0 THEN H[hc].b ELSE c
        viaCore(T) == Rs(T.r, T.S, H, O)
        bind(i) == [H EXCEPT ![h].b = i] IN
    CASE \* handles of entities: h, type, model or model handle, create?, id
         op = "hE" -> LET m == IF a[6] # 0 THEN H[a[6]].b ELSE a[3]
                          mk == a[4] = 1 /\ (a[6] = 0 \/ m # 0) IN
              Rs(1, IF mk THEN NewAt(S, m, a[5], a[2]) ELSE S, [H EXCEPT ![h] = [k |-> "ent", t |-> a[2], b |-> IF mk THEN a[5] ELSE 0, p |-> m]], O)
      [] op = "hN" -> Rs(1, NewAt(S, H[h].p, a[2], H[h].t), bind(a[2]), O)
      [] op = "hA" -> IF a[2] = 0 THEN no ELSE IF S.e[a[2]].k # H[h].t THEN no ELSE Rs(1, S, bind(a[2]), O)
      [] op = "hD" -> Rs(b, S, bind(0), O)
      [] op = "hX" -> Rs(1, IF b = 0 THEN S ELSE IF S.e[b].o = 0 THEN Destroy(S, b) ELSE Apply(S, "del", <<S.e[b].o, b>>).S, bind(0), O)
      [] op = "hK" -> LET x == H[h] IN      \* the end of a handle: models, segments and outlines end with it
              Rs(1, IF x.k = "model" /\ b # 0 THEN [ClearModel(S, b) EXCEPT !.m[b] = <<-1>>] ELSE S, [H EXCEPT ![h] = NoH],
                 IF x.k \in {"seg"} \cup OutK /\ b # 0 THEN KillO(O, b) ELSE O)
      [] op = "hP" -> Rs(1, S, [H EXCEPT ![h].p = IF a[3] # 0 THEN H[a[3]].b ELSE a[2]], O)
      [] op = "hS" -> IF b = 0 THEN no ELSE viaCore(SetLink(S, b, a[2], arg(a[3], a[4])))
      [] op = "hC" -> IF b = 0 THEN no ELSE viaCore(AppLink(S, b, arg(a[2], a[3])))
      [] op = "hR" -> IF b = 0 THEN no ELSE viaCore(RemLink(S, b, arg(a[2], a[3])))
      [] op = "hO" -> IF b = 0 THEN no ELSE viaCore(AddOpt(S, b, arg(a[2], a[3])))
      [] op = "hQ" -> IF b = 0 THEN no ELSE viaCore(DelOpt(S, b, arg(a[2], a[3])))
      [] op = "hT" -> IF b = 0 THEN no ELSE viaCore(SetAttr(S, b, a[2], a[3]))
      \* how many of the calls on an invalid handle succeeded; valid: -1
      [] op = "hV" -> Rs(IF b = 0 THEN 0 ELSE -1, S, H, O)
      \* everything readable, and every value set and read back, through the handle and directly
      [] op \in {"hG", "hW"} -> IF b = 0 THEN no ELSE yes
      \* handles of models
      [] op = "mM" -> Rs(1, [S EXCEPT !.m[a[2]] = <<>>, !.u[a[2]] = 0], [H EXCEPT ![h] = [NoH EXCEPT !.k = "model", !.b = a[2]]], O)
      [] op = "mAdd" -> IF b = 0 THEN no ELSE viaCore(Apply(S, "add", <<b, arg(a[2], a[3])>>))
      [] op = "mDel" -> IF b = 0 THEN no ELSE viaCore(Apply(S, "del", <<b, arg(a[2], a[3])>>))
      [] op = "mUnl" -> IF b = 0 THEN no ELSE viaCore(Apply(S, "unl", <<b, arg(a[2], a[3])>>))
      [] op = "mClr" -> IF b = 0 THEN no ELSE viaCore(Apply(S, "clear", <<b>>))
      [] op = "mCull" -> IF b = 0 THEN no ELSE viaCore(Apply(S, "cull", <<b, a[2]>>))
      [] op = "mApi" -> \* model handle, type, handle of the new entity (an existing handle object is replaced), id
              IF b = 0 THEN no
              ELSE IF a[2] \notin NewApi THEN Rs(0, S, [H EXCEPT ![a[3]] = NoH], O)
              ELSE Rs(1, NewEnt(S, b, a[4], a[2], 0, 1), [H EXCEPT ![a[3]] = [k |-> "ent", t |-> a[2], b |-> a[4], p |-> b]], O)
      [] op = "mIge" -> IF b = 0 THEN no ELSE Rs(1, NewEnt(S, b, a[3], a[2], 0, 1), H, O)
      [] op = "mExp" -> IF b = 0 THEN no ELSE viaCore(Export(S, b, H[a[2]].b, a[3]))
      \* handles of segments
      [] op = "sC" -> Rs(1, S, [H EXCEPT ![h] = [NoH EXCEPT !.k = "seg"]], O)
      [] op = "oC" -> Rs(1, S, [H EXCEPT ![h] = [NoH EXCEPT !.k = IF a[2] = 5 THEN "pcb" ELSE "out"]], O)
      [] op \in {"sN", "oN"} -> LET P == IF b # 0 THEN KillO(O, b) ELSE O IN Rs(1, S, bind(a[2]), [P EXCEPT ![a[2]] = [k |-> H[h].k, o |-> 0]])
      [] op \in {"sA", "oA"} -> IF b # 0 \/ a[2] = 0 THEN no ELSE IF O[a[2]].k = "" THEN no ELSE IF op = "oA" /\ H[h].k = "pcb" /\ O[a[2]].k # "pcb" THEN no ELSE Rs(1, S, bind(a[2]), O)
      [] op \in {"sD", "oD"} -> Rs(1, S, bind(0), O)
      [] op \in {"sX", "oX"} -> Rs(1, S, bind(0), IF b = 0 THEN O ELSE KillO(O, b))
      [] op = "sR" -> Rs(1, S, H, [O EXCEPT ![a[1]] = [k |-> "seg", o |-> 0]])
      [] op = "oR" -> Rs(1, S, H, [O EXCEPT ![a[1]] = [k |-> IF a[2] = 5 THEN "pcb" ELSE "out", o |-> 0]])
      [] op \in {"sZ", "oZ"} -> Rs(1, S, H, KillO(O, a[1]))
      [] op = "sP" -> IF b # 0 THEN yes ELSE Rs(1, S, bind(a[3]), [O EXCEPT ![a[3]] = [k |-> "seg", o |-> 0]])
      [] OTHER -> viaCore(Apply(S, op, a))
\* an outline takes a segment or an outline over (r: whether it did, which the geometry decides):
\* the handle given to it is detached; as: "owned" or "gone"
Takes == {"oS", "oU", "oT", "oG"}
ApplyTake(S, H, O, op, a, r) ==
    LET b == H[a[1]].b x == IF a[3] = 0 THEN H[a[2]].b ELSE a[3] IN
    IF b = 0 \/ x = 0 \/ r = 0 THEN Rs(0, S, H, O)
    ELSE Rs(r, S, IF a[3] = 0 THEN [H EXCEPT ![a[2]].b = 0] ELSE H,
            IF op = "oG" THEN KillO(KillAll(O, { j \in DOMAIN O : O[j].o = b /\ O[j].k = "seg" }), x) ELSE [O EXCEPT ![x].o = b])
\* a program that destroys what an outline owns is wrong: the driver leaves these calls out (result -9)
OwnedObj(H, O, op, a) ==
    LET x == IF op \in {"sZ", "oZ"} THEN a[1]
             ELSE IF op \in {"hK", "sN", "oN", "sX", "oX"} /\ H[a[1]].k \in ({"seg"} \cup OutK) THEN H[a[1]].b ELSE 0 IN
    x # 0 /\ O[x].k # "" /\ O[x].o # 0
ApplyRel(S, H, O, op, a) == [r |-> -9, S |-> S, H |-> IF op = "hK" THEN [H EXCEPT ![a[1]] = NoH] ELSE H, O |-> O]
\* E04: by construction of Norm; stated over the state for the generator
HandleOk(S, H, O) == H = Norm(S, H, O)
=============================================================================
