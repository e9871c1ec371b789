---------------------------------- MODULE MST ----------------------------------
(***************************************************************************)
(* The ATProto Merkle search tree as a mathematical object.                 *)
(* Keys are the positions 1..N of the key universe in byte order; Lay[k] is *)
(* the layer the key's hash assigns to it (leading zero bit pairs).         *)
(* Contents are functions from a finite set of keys to values.              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

Leaf(k, v) == [k |-> k, v |-> v]
Sub(n)     == [n |-> n]
IsLeaf(e)  == "k" \in DOMAIN e

EmptyC == [x \in {} |-> 0]                       \* the empty contents
Put(c, k, v) == (k :> v) @@ c
Drop(c, k)   == [x \in DOMAIN c \ {k} |-> c[x]]

MaxLayer(S, Lay) == IF S = {} THEN 0 ELSE Max({Lay[k] : k \in S})

(* keys of S strictly between the i-th and (i+1)-th of the sorted keys ts *)
Gap(S, ts, i) == {k \in S : (i = 0 \/ k > ts[i]) /\ (i = Len(ts) \/ k < ts[i + 1])}

(***************************************************************************)
(* Canon: the one tree for given contents, as nested entry sequences.       *)
(***************************************************************************)
RECURSIVE Build(_, _, _, _)
Build(S, c, Lay, ly) ==
  LET ts   == SetToSortSeq({k \in S : Lay[k] = ly}, <)
      rest == {k \in S : Lay[k] # ly}
      sub(i) == LET g == Gap(rest, ts, i)
                IN IF g = {} THEN <<>> ELSE <<Sub(Build(g, c, Lay, ly - 1))>>
  IN  sub(0) \o FlattenSeq([i \in 1..Len(ts) |-> <<Leaf(ts[i], c[ts[i]])>> \o sub(i)])

Canon(c, Lay) == Build(DOMAIN c, c, Lay, MaxLayer(DOMAIN c, Lay))

(***************************************************************************)
(* Persistent node format.  nodes[id] = [l |-> id or 0, e |-> sequence of   *)
(* <<p, k, v, t>>]: p bytes shared with the previous key of the node, key,   *)
(* value, right subtree (0 = none); k = 0 if the bytes are no known key.    *)
(* Lcp[i][j]: common prefix length of keys i and j.                          *)
(***************************************************************************)
RECURSIVE CanonNode(_, _, _, _, _, _, _)
CanonNode(id, S, c, Lay, ly, nodes, Lcp) ==
  /\ id # 0
  /\ LET nd   == nodes[id]
         ts   == SetToSortSeq({k \in S : Lay[k] = ly}, <)
         rest == {k \in S : Lay[k] # ly}
         child(i, t) == LET g == Gap(rest, ts, i)
                        IN IF g = {} THEN t = 0
                           ELSE t # 0 /\ CanonNode(t, g, c, Lay, ly - 1, nodes, Lcp)
     IN /\ Len(nd.e) = Len(ts)
        /\ \A i \in 1..Len(ts) :
              /\ nd.e[i][2] = ts[i]
              /\ nd.e[i][3] = c[ts[i]]
              /\ nd.e[i][1] = (IF i = 1 THEN 0 ELSE Lcp[ts[i - 1]][ts[i]])
              /\ child(i, nd.e[i][4])
        /\ child(0, nd.l)

CanonRoot(id, c, Lay, nodes, Lcp) ==
  CanonNode(id, DOMAIN c, c, Lay, MaxLayer(DOMAIN c, Lay), nodes, Lcp)

(* ids of all nodes of the tree rooted at id *)
RECURSIVE Reach(_, _)
Reach(id, nodes) ==
  IF id = 0 THEN {}
  ELSE {id} \cup Reach(nodes[id].l, nodes)
            \cup UNION {Reach(nodes[id].e[i][4], nodes) : i \in DOMAIN nodes[id].e}

(* node ids on the search path for key k: each node from the root down to the *)
(* node that holds k, or that would be searched last for it                   *)
RECURSIVE PathTo(_, _, _)
PathTo(id, k, nodes) ==
  LET nd == nodes[id]
      before == {i \in DOMAIN nd.e : nd.e[i][2] < k}
      here == \E i \in DOMAIN nd.e : nd.e[i][2] = k
      nxt == IF before = {} THEN nd.l ELSE nd.e[Max(before)][4]
  IN <<id>> \o (IF here \/ nxt = 0 THEN <<>> ELSE PathTo(nxt, k, nodes))

Sorted(c, S) == LET ts == SetToSortSeq(S, <) IN [i \in 1..Len(ts) |-> <<ts[i], c[ts[i]]>>]

(***************************************************************************)
(* Diff of two contents                                                     *)
(***************************************************************************)
DiffAdds(cur, prev) == {<<k, cur[k]>> : k \in DOMAIN cur \ DOMAIN prev}
DiffDels(cur, prev) == {<<k, prev[k]>> : k \in DOMAIN prev \ DOMAIN cur}
DiffUpds(cur, prev) == {<<k, prev[k], cur[k]>> :
                          k \in {x \in DOMAIN cur \cap DOMAIN prev : cur[x] # prev[x]}}
=============================================================================
