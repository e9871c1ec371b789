------------------------------- MODULE MSTTrace -------------------------------
(***************************************************************************)
(* Validates traces of the real tree (arroba.mst, arroba.diff) against the  *)
(* mathematical tree of MST.tla.                                            *)
(*                                                                         *)
(* First event of a trace ("init"): lay (layer per key), lcp (matrix),      *)
(* nodes (table of every node block seen; ids are per CID, decoded          *)
(* independently of the code under test; badnodes: ids of blocks whose      *)
(* bytes are not the canonical encoding of a node or not hashing to their   *)
(* CID).  A tree observation is the id of its root.                          *)
(***************************************************************************)
EXTENDS MST, TraceLib

VARIABLES l, s, bad
vars == <<l, s, bad>>

C0 == EmptyC
Fresh(e) == [hdr |-> e, vers |-> <<C0>>, roots |-> <<0>>, stored |-> {}]

(* version numbers are 1-based indexes into vers; version 1 is the empty tree *)
Val(v) == v
List(c, S) == Sorted(c, S)
NodeOk(e, id) == id # 0

CanonAt(e, id, c) ==
  /\ id # 0
  /\ Reach(id, s.hdr.nodes) \cap AsSet(s.hdr.badnodes) = {}
  /\ CanonRoot(id, c, s.hdr.lay, s.hdr.nodes, s.hdr.lcp)

EditResult(e, c) ==
  CASE e.k = 0 -> "rejected"                       \* not a valid key
    [] e.op = "add" /\ e.k \in DOMAIN c -> "rejected"
    [] e.op \in {"update", "delete"} /\ e.k \notin DOMAIN c -> "rejected"
    [] OTHER -> "ok"
EditEffect(e, c) ==
  CASE EditResult(e, c) # "ok" -> c
    [] e.op \in {"add", "update"} -> Put(c, e.k, e.v)
    [] OTHER -> Drop(c, e.k)

(* query bounds are positions on a doubled scale: 2k is key k, odd values lie between *)
InRange(c, lo, loIncl, hi) ==
  {k \in DOMAIN c : /\ (IF loIncl THEN 2 * k >= lo ELSE 2 * k > lo)
                    /\ (hi = 0 \/ 2 * k < hi)}

Pairs(r) == [i \in DOMAIN r |-> <<r[i][1], r[i][2]>>]

Failing(e) ==
  CASE e.op = "init" -> {}
    [] e.op \in {"add", "update", "delete"} ->
         Chk("M02.edit-outcome", e.r = EditResult(e, s.vers[e.ver]))
    [] e.op = "observe" ->           \* the root and all node blocks of a version, possibly old
         Chk("M01.canonical", CanonAt(e, e.root, s.vers[e.ver]))
         \cup Chk("M02.old-root-changed", s.roots[e.ver] \in {0, e.root})
    [] e.op = "reread" ->            \* the contents of an existing version, possibly old
         Chk("M02.old-version-changed", Pairs(e.r) = List(s.vers[e.ver], DOMAIN s.vers[e.ver]))
    [] e.op = "get" ->
         Chk("M02.get", e.r = (IF e.k \in DOMAIN s.vers[e.ver] THEN s.vers[e.ver][e.k] ELSE 0))
    [] e.op = "range" ->
         Chk("M02." \o e.what,
             Pairs(e.r) = List(s.vers[e.ver], InRange(s.vers[e.ver], e.lo, e.incl, e.hi)))
    [] e.op = "prefix" ->
         Chk("M02.prefix", Pairs(e.r) = List(s.vers[e.ver], AsSet(e.match) \cap DOMAIN s.vers[e.ver]))
    [] e.op = "count" -> Chk("M02.count", e.r = Cardinality(DOMAIN s.vers[e.ver]))
    [] e.op = "path" ->
         LET c == s.vers[e.ver]
             nodes == PathTo(s.roots[e.ver], e.k, s.hdr.nodes)
         IN Chk("M02.path", e.nodes = nodes /\ e.v = (IF e.k \in DOMAIN c THEN c[e.k] ELSE 0))
    [] e.op = "unstored" ->
         Chk("M04.own-hash", e.allhash)
         \cup Chk("M04.root", e.root = s.roots[e.ver])
         \cup Chk("M04.foreign-block", AsSet(e.blocks) \subseteq Reach(s.roots[e.ver], s.hdr.nodes))
         \cup Chk("M04.missing", Reach(s.roots[e.ver], s.hdr.nodes) \subseteq (AsSet(e.blocks) \cup s.stored))
         \cup Chk("M04.already-stored", AsSet(e.blocks) \cap s.stored = {})
         \cup Chk("M04.side-effect", ~e.wrote)
    [] e.op = "reload" ->
         Chk("M04.reload", e.ok /\ Pairs(e.r) = List(s.vers[e.ver], DOMAIN s.vers[e.ver]))
         \cup Chk("M01.reload-root", e.root = s.roots[e.ver])
    [] e.op = "diff" ->
         LET cur == s.vers[e.cur]
             prev == IF e.prev = 0 THEN C0 ELSE s.vers[e.prev]
             ncur == Reach(s.roots[e.cur], s.hdr.nodes)
             nprev == IF e.prev = 0 THEN {} ELSE Reach(s.roots[e.prev], s.hdr.nodes)
         IN Chk("M03.adds", AsSet(e.adds) = DiffAdds(cur, prev))
            \cup Chk("M03.updates", AsSet(e.updates) = DiffUpds(cur, prev))
            \cup Chk("M03.deletes", AsSet(e.deletes) = DiffDels(cur, prev))
            \cup Chk("M03.new-nodes", AsSet(e.newnodes) = ncur \ nprev)
            \cup Chk("M03.new-values", AsSet(e.newvals) =
                       {x[2] : x \in DiffAdds(cur, prev)} \cup {x[3] : x \in DiffUpds(cur, prev)})
            \cup Chk("M03.removed", AsSet(e.removed) = nprev \ ncur)
    [] e.op = "raised" -> {e.prop \o ".raised"}    \* the code raised where it must not
    [] OTHER -> {"machinery"}

Effect(e) ==
  CASE e.op = "init" -> Fresh(e)
    [] e.op \in {"add", "update", "delete"} /\ e.r = "ok" ->
         [s EXCEPT !.vers = Append(@, EditEffect(e, s.vers[e.ver])), !.roots = Append(@, 0)]
    [] e.op = "observe" -> [s EXCEPT !.roots[e.ver] = e.root]
    [] e.op = "reload" ->       \* a new handle on the same contents
         [s EXCEPT !.vers = Append(@, s.vers[e.ver]), !.roots = Append(@, s.roots[e.ver])]
    [] e.op = "unstored" -> [s EXCEPT !.stored = @ \cup AsSet(e.blocks)]
    [] OTHER -> s

TraceInit == l = 1 /\ s = Fresh([x |-> 1]) /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ bad' = bad \cup {<<l, n>> : n \in New(bad, Failing(Trace[l]))}
             /\ s' = Effect(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_vars
Verdict == l = Len(Trace) + 1 => JsonSerialize(IOEnv.OUT, SetToSeq(bad))
=============================================================================
