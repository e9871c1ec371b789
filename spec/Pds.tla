---------------------------------- MODULE Pds ----------------------------------
(***************************************************************************)
(* The personal data server's storage as a state machine: repos with their  *)
(* contents, head, status; the block store; the event log; the sequence     *)
(* numbers handed out, used and reported lost.                              *)
(*                                                                         *)
(* This module holds the transition functions.  PdsDesign.tla explores them  *)
(* exhaustively for small constants, PdsTrace.tla checks recorded executions *)
(* of the real code against them.                                           *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

Empty == [x \in {} |-> 0]

(***************************************************************************)
(* One write <<action, key, value>> on contents c: the new contents and the  *)
(* effective operation <<action, key, new, previous>>, or a rejection.       *)
(***************************************************************************)
WriteOk(c, w, Bad) ==
  /\ w[2] # 0                                  \* a valid path
  /\ w[1] # "delete" => w[3] \notin Bad        \* a valid record within limits
  /\ IF w[1] = "create" THEN w[2] \notin DOMAIN c ELSE w[2] \in DOMAIN c

WriteEffect(c, w) ==
  IF w[1] = "delete" THEN [x \in DOMAIN c \ {w[2]} |-> c[x]]
  ELSE (w[2] :> w[3]) @@ c

(* an update that changes nothing is not an operation of the commit *)
WriteOps(c, w) ==
  CASE w[1] = "create" -> <<<<"create", w[2], w[3], 0>>>>
    [] w[1] = "delete" -> <<<<"delete", w[2], 0, c[w[2]]>>>>
    [] OTHER -> IF c[w[2]] = w[3] THEN <<>> ELSE <<<<"update", w[2], w[3], c[w[2]]>>>>

RECURSIVE ApplyFrom(_, _, _, _, _)
ApplyFrom(c, ws, i, Bad, ops) ==
  IF i > Len(ws) THEN [ok |-> TRUE, c |-> c, ops |-> ops]
  ELSE IF ~WriteOk(c, ws[i], Bad) THEN [ok |-> FALSE, c |-> Empty, ops |-> <<>>]
  ELSE ApplyFrom(WriteEffect(c, ws[i]), ws, i + 1, Bad, ops \o WriteOps(c, ws[i]))

MaxOps == 200

(* a whole commit: all of it or none of it *)
Apply(c, ws, Bad) ==
  IF Len(ws) > MaxOps THEN [ok |-> FALSE, c |-> Empty, ops |-> <<>>]
  ELSE ApplyFrom(c, ws, 1, Bad, <<>>)

(* undo the operations of a commit, last first *)
RECURSIVE Undo(_, _)
Undo(c, ops) ==
  IF ops = <<>> THEN c
  ELSE LET o == ops[Len(ops)]
           d == IF o[1] = "create" THEN [x \in DOMAIN c \ {o[2]} |-> c[x]]
                ELSE (o[2] :> o[4]) @@ c
       IN Undo(d, SubSeq(ops, 1, Len(ops) - 1))

(***************************************************************************)
(* Statuses                                                                 *)
(***************************************************************************)
NewStatus(st, what) ==
  CASE st = "tombstoned" -> "tombstoned"
    [] what = "deactivate" -> "deactivated"
    [] what = "activate" -> "active"
    [] what = "tombstone" -> "tombstoned"

(***************************************************************************)
(* Trees, from their node blocks.  blk[id] = [kind, l, e, ...]              *)
(***************************************************************************)
RECURSIVE NodesOf(_, _)
NodesOf(id, blk) ==
  IF id = 0 \/ id \notin DOMAIN blk THEN {}
  ELSE {id} \cup NodesOf(blk[id].l, blk)
            \cup UNION {NodesOf(blk[id].e[i][4], blk) : i \in DOMAIN blk[id].e}

(* the entries <<key, value>> of a tree *)
TreePairs(id, blk) ==
  UNION {{<<blk[n].e[i][2], blk[n].e[i][3]>> : i \in DOMAIN blk[n].e} : n \in NodesOf(id, blk)}

TreeIs(id, blk, c) ==
  /\ \A n \in NodesOf(id, blk) : blk[n].kind = "node" /\ blk[n].ok
  /\ TreePairs(id, blk) = {<<k, c[k]>> : k \in DOMAIN c}
  /\ NodesOf(id, blk) # {}

(***************************************************************************)
(* Partial trees: operation inversion (sync 1.1).                           *)
(*                                                                         *)
(* Items(id, lo..) flattens the tree known from the shipped nodes Sh into    *)
(* known leaves and opaque subtrees (nodes referenced but not shipped).      *)
(* MatchPrev decides whether the tree with these items, after inverting the  *)
(* operations on the leaves, provably has root `prev`: every node of the     *)
(* previous tree is either an opaque subtree used whole, or can be rebuilt   *)
(* from known items.                                                        *)
(***************************************************************************)
LeafIt(k, v) == [k |-> k, v |-> v, o |-> 0, ly |-> 0]
OpaqueIt(id, ly) == [k |-> 0, v |-> 0, o |-> id, ly |-> ly]

RECURSIVE Items(_, _, _, _)
Items(id, ly, Sh, blk) ==
  IF id = 0 THEN <<>>
  ELSE IF id \notin Sh THEN <<OpaqueIt(id, ly)>>
  ELSE Items(blk[id].l, ly - 1, Sh, blk)
       \o FlattenSeq([i \in DOMAIN blk[id].e |->
            <<LeafIt(blk[id].e[i][2], blk[id].e[i][3])>>
            \o Items(blk[id].e[i][4], ly - 1, Sh, blk)])

(* layer of the shipped root: of any leaf in it, or one above its child's *)
RECURSIVE RootLayer(_, _, _, _)
RootLayer(id, Sh, blk, Lay) ==
  IF id \notin Sh THEN -1
  ELSE IF blk[id].e # <<>> THEN Lay[blk[id].e[1][2]]
  ELSE IF blk[id].l = 0 THEN 0
  ELSE LET d == RootLayer(blk[id].l, Sh, blk, Lay) IN IF d < 0 THEN -1 ELSE d + 1

RemoveKey(its, k) == SelectSeq(its, LAMBDA it : it.k # k)
PutKey(its, k, v) == [i \in DOMAIN its |-> IF its[i].k = k THEN LeafIt(k, v) ELSE its[i]]
(* inserting needs to know the position: between known leaves, not inside an opaque *)
InsertKey(its, k, v) ==
  LET before == {i \in DOMAIN its : its[i].k # 0 /\ its[i].k < k}
      p == IF before = {} THEN 0 ELSE Max(before)
  IN SubSeq(its, 1, p) \o <<LeafIt(k, v)>> \o SubSeq(its, p + 1, Len(its))
(* an opaque subtree next to the insertion point could be on either side of the key *)
Ambiguous(its, k) ==
  LET before == {i \in DOMAIN its : its[i].k # 0 /\ its[i].k < k}
      p == IF before = {} THEN 0 ELSE Max(before)
  IN p < Len(its) /\ its[p + 1].k = 0

HasKey(its, k) == \E i \in DOMAIN its : its[i].k = k

RECURSIVE UndoItems(_, _)
UndoItems(its, ops) ==
  IF ops = <<>> THEN [ok |-> TRUE, its |-> its]
  ELSE LET o == ops[Len(ops)]
           rest == SubSeq(ops, 1, Len(ops) - 1)
       IN CASE o[1] = "create" -> IF HasKey(its, o[2]) THEN UndoItems(RemoveKey(its, o[2]), rest)
                                  ELSE [ok |-> FALSE, its |-> its]
            [] o[1] = "update" -> IF HasKey(its, o[2]) THEN UndoItems(PutKey(its, o[2], o[4]), rest)
                                  ELSE [ok |-> FALSE, its |-> its]
            [] OTHER -> IF HasKey(its, o[2]) \/ Ambiguous(its, o[2]) THEN [ok |-> FALSE, its |-> its]
                        ELSE UndoItems(InsertKey(its, o[2], o[4]), rest)

LayerOf(it, Lay) == IF it.k # 0 THEN Lay[it.k] ELSE it.ly

RECURSIVE MatchPrev(_, _, _, _, _)
MatchPrev(id, its, ly, blk, Lay) ==
  LET tops == {i \in DOMAIN its : its[i].k # 0 /\ Lay[its[i].k] = ly}
      ts == SetToSortSeq(tops, <)
      grp(i) == SubSeq(its, IF i = 0 THEN 1 ELSE ts[i] + 1,
                            IF i = Len(ts) THEN Len(its) ELSE ts[i + 1] - 1)
      child(t, g) ==
        IF g = <<>> THEN t = 0
        ELSE IF Len(g) = 1 /\ g[1].o # 0 /\ g[1].ly = ly - 1 THEN t = g[1].o
        ELSE /\ \A i \in DOMAIN g : LayerOf(g[i], Lay) < ly - (IF g[i].o # 0 THEN 1 ELSE 0)
             /\ t # 0 /\ MatchPrev(t, g, ly - 1, blk, Lay)
  IN /\ ly >= 0
     /\ id \in DOMAIN blk /\ blk[id].kind = "node"
     /\ \A i \in DOMAIN its : its[i].o # 0 => its[i].ly < ly
     /\ Len(blk[id].e) = Len(ts)
     /\ \A i \in 1..Len(ts) : /\ blk[id].e[i][2] = its[ts[i]].k
                              /\ blk[id].e[i][3] = its[ts[i]].v
                              /\ child(blk[id].e[i][4], grp(i))
     /\ child(blk[id].l, grp(0))

(* ops inverted on the tree `root`, of which only Sh is known, give the tree `prev` *)
Invertible(root, Sh, ops, prev, blk, Lay) ==
  LET rl == RootLayer(root, Sh, blk, Lay)
      u == UndoItems(Items(root, rl, Sh, blk), ops)
      its == u.its
      top == Max({LayerOf(its[i], Lay) : i \in DOMAIN its})
  IN /\ root \in Sh
     /\ (rl >= 0 \/ ops = <<>>)
     /\ IF ops = <<>> THEN prev = root
        ELSE /\ u.ok
             /\ IF its = <<>> THEN blk[prev].e = <<>> /\ blk[prev].l = 0
                ELSE IF Len(its) = 1 /\ its[1].o # 0 THEN prev = its[1].o /\ blk[prev].e # <<>>
                ELSE MatchPrev(prev, its, top, blk, Lay)
=============================================================================
