-------------------------------- MODULE MSTAlgo --------------------------------
(***************************************************************************)
(* The edit algorithm of arroba's mst.py, transcribed at the level of node  *)
(* entries and layer hints, checked against MST!Canon for every assignment  *)
(* of layers to keys and every edit history, with save+reload in between    *)
(* (reloading forgets layer hints: the root's layer is recomputed).         *)
(* A tree here is [ly |-> layer hint or -1 (unknown), es |-> entries].       *)
(***************************************************************************)
EXTENDS MST, CSV, Json, IOUtils

CONSTANTS N, K, Vals,
  ForgetLayerWhenEmpty     \* TRUE: the repaired code; FALSE: as first found
Keys == 1..N

T(ly, es)  == [ly |-> ly, es |-> es]
Tr(t)      == [tree |-> t]
IsTree(e)  == "tree" \in DOMAIN e

RECURSIVE GetLayer(_, _), AttemptLayer(_, _)
AttemptLayer(t, Lay) ==
  IF t.ly # -1 THEN t.ly
  ELSE LET ls == {i \in DOMAIN t.es : ~IsTree(t.es[i])}
       IN IF ls # {} THEN Lay[t.es[Min(ls)].k]
          ELSE LET cs == {i \in DOMAIN t.es : IsTree(t.es[i]) /\ AttemptLayer(t.es[i].tree, Lay) # -1}
               IN IF cs = {} THEN -1 ELSE AttemptLayer(t.es[Min(cs)].tree, Lay) + 1
GetLayer(t, Lay) == LET a == AttemptLayer(t, Lay) IN IF a = -1 THEN 0 ELSE a

(* index of first leaf >= k, else Len+1 *)
FindGE(t, k) == LET s == {i \in DOMAIN t.es : ~IsTree(t.es[i]) /\ t.es[i].k >= k}
                IN IF s = {} THEN Len(t.es) + 1 ELSE Min(s)
At(t, i) == IF i \in DOMAIN t.es THEN <<t.es[i]>> ELSE <<>>
IsTreeAt(t, i) == i \in DOMAIN t.es /\ IsTree(t.es[i])
IsKeyAt(t, i, k) == i \in DOMAIN t.es /\ ~IsTree(t.es[i]) /\ t.es[i].k = k
Upto(t, i) == SubSeq(t.es, 1, i)
From(t, i) == SubSeq(t.es, i, Len(t.es))

Opt(t) == IF t.es = <<>> THEN <<>> ELSE <<t>>     \* "or None if empty"

RECURSIVE SplitAround(_, _)
SplitAround(t, k) ==
  LET i == FindGE(t, k)
      l == Upto(t, i - 1)
      r == From(t, i)
  IN IF l # <<>> /\ IsTree(l[Len(l)])
     THEN LET s == SplitAround(l[Len(l)].tree, k)
              l2 == SubSeq(l, 1, Len(l) - 1) \o [j \in DOMAIN s[1] |-> Tr(s[1][j])]
              r2 == [j \in DOMAIN s[2] |-> Tr(s[2][j])] \o r
          IN <<Opt(T(t.ly, l2)), Opt(T(t.ly, r2))>>
     ELSE <<Opt(T(t.ly, l)), Opt(T(t.ly, r))>>

RECURSIVE Parents(_, _, _)
Parents(o, n, Lay) ==        \* n structural parents on top of an optional tree
  IF o = <<>> \/ n = 0 THEN o
  ELSE Parents(<<T(GetLayer(o[1], Lay) + 1, <<Tr(o[1])>>)>>, n - 1, Lay)

RECURSIVE Add(_, _, _, _)
Add(t, k, v, Lay) ==
  LET z  == Lay[k]
      ly == GetLayer(t, Lay)
      i  == FindGE(t, k)
  IN CASE z = ly ->
            IF ~IsTreeAt(t, i - 1)
            THEN T(ly, Upto(t, i - 1) \o <<Leaf(k, v)>> \o From(t, i))
            ELSE LET s == SplitAround(t.es[i - 1].tree, k)
                 IN T(ly, Upto(t, i - 2) \o [j \in DOMAIN s[1] |-> Tr(s[1][j])]
                          \o <<Leaf(k, v)>> \o [j \in DOMAIN s[2] |-> Tr(s[2][j])] \o From(t, i))
       [] z < ly ->
            IF IsTreeAt(t, i - 1)
            THEN T(ly, Upto(t, i - 2) \o <<Tr(Add(t.es[i - 1].tree, k, v, Lay))>> \o From(t, i))
            ELSE T(ly, Upto(t, i - 1) \o <<Tr(Add(T(ly - 1, <<>>), k, v, Lay))>> \o From(t, i))
       [] OTHER ->
            LET s == SplitAround(T(ly, t.es), k)
                l == Parents(s[1], z - ly - 1, Lay)
                r == Parents(s[2], z - ly - 1, Lay)
            IN T(z, [j \in DOMAIN l |-> Tr(l[j])] \o <<Leaf(k, v)>> \o [j \in DOMAIN r |-> Tr(r[j])])

RECURSIVE Update(_, _, _)
Update(t, k, v) ==
  LET i == FindGE(t, k)
  IN IF IsKeyAt(t, i, k) THEN T(t.ly, [t.es EXCEPT ![i] = Leaf(k, v)])
     ELSE T(t.ly, [t.es EXCEPT ![i - 1] = Tr(Update(t.es[i - 1].tree, k, v))])

RECURSIVE AppendMerge(_, _)
AppendMerge(a, b) ==
  IF a.es # <<>> /\ b.es # <<>> /\ IsTree(a.es[Len(a.es)]) /\ IsTree(b.es[1])
  THEN T(a.ly, SubSeq(a.es, 1, Len(a.es) - 1)
               \o <<Tr(AppendMerge(a.es[Len(a.es)].tree, b.es[1].tree))>> \o Tail(b.es))
  ELSE T(a.ly, a.es \o b.es)

RECURSIVE RemoveKey(_, _)
RemoveKey(t, k) ==
  LET i == FindGE(t, k)
  IN IF IsKeyAt(t, i, k)
     THEN IF IsTreeAt(t, i - 1) /\ IsTreeAt(t, i + 1)
          THEN T(t.ly, Upto(t, i - 2) \o <<Tr(AppendMerge(t.es[i - 1].tree, t.es[i + 1].tree))>>
                       \o From(t, i + 2))
          ELSE T(t.ly, Upto(t, i - 1) \o From(t, i + 1))
     ELSE LET s == RemoveKey(t.es[i - 1].tree, k)
          IN IF s.es # <<>> THEN T(t.ly, [t.es EXCEPT ![i - 1] = Tr(s)])
             ELSE T(t.ly, Upto(t, i - 2) \o From(t, i))
RECURSIVE TrimTop(_)
TrimTop(t) == IF Len(t.es) = 1 /\ IsTree(t.es[1]) THEN TrimTop(t.es[1].tree)
              ELSE IF t.es = <<>> /\ ForgetLayerWhenEmpty THEN T(-1, <<>>) ELSE t
Delete(t, k) == TrimTop(RemoveKey(t, k))

RECURSIVE Shape(_)
Shape(t) == [i \in DOMAIN t.es |-> IF IsTree(t.es[i]) THEN Sub(Shape(t.es[i].tree)) ELSE t.es[i]]

(* what a reader sees after save + load: hints below a root with leaves are *)
(* derived from it, all others unknown                                     *)
RECURSIVE Hint(_, _), Forget(_, _)
Hint(t, ly) == T(ly, [i \in DOMAIN t.es |-> IF IsTree(t.es[i])
                        THEN Tr(Hint(t.es[i].tree, IF ly = -1 THEN -1 ELSE ly - 1)) ELSE t.es[i]])
Forget(t, Lay) == Hint(t, -1)

VARIABLES lay, c, tree
vars == <<lay, c, tree>>

Init == /\ lay \in [Keys -> 0..K]
        /\ c = EmptyC
        /\ tree = T(-1, <<>>)

DoAdd(k, v) == /\ k \notin DOMAIN c
               /\ c' = Put(c, k, v)
               /\ tree' = Add(tree, k, v, lay)
DoUpdate(k, v) == /\ k \in DOMAIN c /\ c[k] # v
                  /\ c' = Put(c, k, v)
                  /\ tree' = Update(tree, k, v)
DoDelete(k) == /\ k \in DOMAIN c
               /\ c' = Drop(c, k)
               /\ tree' = Delete(tree, k)
Reload == /\ tree' = Forget(tree, lay)
          /\ UNCHANGED c
Next == /\ UNCHANGED lay
        /\ \/ \E k \in Keys, v \in Vals : DoAdd(k, v) \/ DoUpdate(k, v)
           \/ \E k \in Keys : DoDelete(k)
           \/ Reload
Spec == Init /\ [][Next]_vars

Canonical == Shape(tree) = Canon(c, lay)
(* distinct contents never share a tree: the leaves determine the contents *)
RECURSIVE LeavesOf(_)
LeavesOf(es) == FlattenSeq([i \in DOMAIN es |-> IF "n" \in DOMAIN es[i] THEN LeavesOf(es[i].n)
                                                ELSE <<<<es[i].k, es[i].v>>>>])
LeavesSorted == LeavesOf(Canon(c, lay)) = Sorted(c, DOMAIN c)

(* print every state once: layers, contents, canonical tree, for the replay into the code *)
Dump == ~("DUMP" \in DOMAIN IOEnv) \/
        CSVWrite("%1$s", <<ToJson([lay |-> lay, ks |-> Sorted(c, DOMAIN c), tree |-> Canon(c, lay)])>>, IOEnv.DUMP)
Inv == Canonical /\ LeavesSorted
View == <<lay, c, tree>>
=============================================================================
