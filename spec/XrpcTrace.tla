------------------------------- MODULE XrpcTrace --------------------------------
(***************************************************************************)
(* The XRPC interface on top of the storage state machine: every call of the *)
(* real handlers, with its decoded answer, against the state that PdsTrace    *)
(* maintains.  Storage operations and observations (fresh readers) are        *)
(* PdsTrace's; here a call is one event op = "x" with method m.               *)
(***************************************************************************)
EXTENDS PdsTrace

X == s.hdr.x                       \* keys: collection and byte-order rank of each

Unknown(e) == ~Exists(e.did)
(* what a caller naming this repo gets: "" if it may be read and written *)
Access(e) == IF ~Exists(e.did) THEN "RepoNotFound"
             ELSE IF Repo(e.did).status # "active" THEN "RepoDeactivated" ELSE ""

Refused(e, prop) ==       \* the error that hides the repo
  Chk(prop \o ".access", e.code = 400 /\ e.err = Access(e))

(* a content read: refused or, if the repo is readable, judged by S *)
Read(e, prop, S) == IF Access(e) # "" THEN Refused(e, "X07")
                    ELSE IF e.code = 504 THEN {prop \o ".hang"} ELSE S

Blamed(name, S) == {name \o ":" \o n : n \in S}
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
HeadBlk(d) == Blk(Repo(d).head)
Full(d) == {Repo(d).head} \cup NodesOf(HeadBlk(d).data, blk)
           \cup {Repo(d).c[k] : k \in DOMAIN Repo(d).c}
Flat(pages) == FlattenSeq(pages)
ByRank(S) == SetToSortSeq(S, LAMBDA a, b : X.rank[a] < X.rank[b])

(* the nodes from node n down to where key k is or would be *)
RECURSIVE Path(_, _)
Path(n, k) ==
  IF n = 0 THEN {}
  ELSE LET es == Blk(n).e
           at == {i \in DOMAIN es : es[i][2] = k}
           p == Cardinality({i \in DOMAIN es : X.rank[es[i][2]] < X.rank[k]})
       IN {n} \cup (IF at # {} THEN {} ELSE Path(IF p = 0 THEN Blk(n).l ELSE es[p][4], k))

Statuses == [deactivated |-> "deactivated", tombstoned |-> "deactivated"]
ShownStatus(d) == IF Repo(d).status = "active" THEN "" ELSE Statuses[Repo(d).status]

(***************************************************************************)
(* Writes                                                                   *)
(***************************************************************************)
Authorised(e) == e.auth = "ok"
WriteOp(e) == CASE e.m = "delete" -> <<"delete", e.k, 0>>
                [] e.m = "create" /\ e.gen -> <<"create", e.k, e.v>>
                [] e.k \in DOMAIN Repo(e.did).c -> <<"update", e.k, e.v>>
                [] OTHER -> <<"create", e.k, e.v>>
Noop(e) == e.m = "delete" /\ e.k \notin DOMAIN Repo(e.did).c
(* an authenticated, supported call on a readable repo with a good path and record *)
Wanted(e) == /\ Authorised(e) /\ e.supp /\ ~e.swap /\ Access(e) = ""
             /\ (e.gen \/ e.k # 0)
             /\ (e.m = "delete" \/ e.v \notin BadVals)

FailWrite(e) ==
  LET res == Apply(Repo(e.did).c, <<WriteOp(e)>>, BadVals)
      used == s.used[e.did]
  IN IF e.code = 504 THEN {"X05.hang"}
     ELSE IF ~Authorised(e) THEN Chk("X04.write-accepted", e.code # 200) \cup Chk("X04.numbers", e.alloc = <<>>)
     ELSE IF ~Wanted(e)
     THEN Chk("X05.bad-write-accepted", e.code # 200 \/ (e.m = "delete" /\ e.k = 0 /\ e.alloc = <<>>))
          \cup (IF e.supp /\ ~e.swap /\ Access(e) # "" /\ e.k # 0
                   /\ (e.m = "delete" \/ e.v \notin BadVals)
                THEN Refused(e, "X05") ELSE {})
     ELSE IF e.code # 200 THEN {IF e.err = "InvalidRequest" /\ e.alloc = <<>> /\ s.hdr.prop = "X04"
                                THEN "X04.write-rejected" ELSE "X05.good-write-rejected"}
     ELSE IF Noop(e) THEN Chk("X05.noop-committed", e.alloc = <<>>)
     ELSE Blamed("X05.commit", HeadChecks(e.head, e.did, res.c, Repo(e.did).head,
                                       IF e.alloc = <<>> THEN -1 ELSE e.alloc[Len(e.alloc)], Repo(e.did).rev))
          \cup (IF e.m = "delete" THEN {}
                ELSE Chk("X05.uri", e.uri = <<e.did, e.k>>) \cup Chk("X05.cid", e.cid = e.v))
          \cup (IF e.gen THEN Chk("X05.fresh-key", e.k # 0 /\ e.k \notin used /\ e.tid /\ e.same) ELSE {})

(***************************************************************************)
(* Import                                                                   *)
(***************************************************************************)
RootOf(e) == IF e.roots = <<>> THEN 0 ELSE e.roots[1]
Sealed(e) == /\ -1 \notin AsSet(e.ids)
             /\ RootOf(e) \in AsSet(e.ids)
             /\ Blk(RootOf(e)).kind = "commit"
             /\ e.claimed
             /\ e.signed
TreeIn(e, have) ==
  LET ns == NodesOf(Blk(RootOf(e)).data, blk)
  IN /\ ns # {} /\ ns \subseteq have
     /\ \A n \in ns : Blk(n).kind = "node"
     /\ \A p \in TreePairs(Blk(RootOf(e)).data, blk) : p[2] \in have
ImportMust(e) == Authorised(e) /\ ~Exists(e.did) /\ e.named /\ Sealed(e) /\ TreeIn(e, AsSet(e.ids))
ImportMay(e) == Authorised(e) /\ ~Exists(e.did) /\ Sealed(e)
                /\ TreeIn(e, AsSet(e.ids) \cup DOMAIN s.blocks)
ImportedC(e) == LET ps == TreePairs(Blk(RootOf(e)).data, blk)
                IN [k \in {p[1] : p \in ps} |-> (CHOOSE p \in ps : p[1] = k)[2]]

(***************************************************************************)
FailX(e) ==
  CASE e.m \in {"create", "put", "delete"} -> FailWrite(e)
    [] e.m = "get" ->
         IF ~e.supp THEN Chk("X05.unsupported-served", e.code # 200) ELSE
         Read(e, "X05", IF e.k \in DOMAIN Repo(e.did).c
              THEN Chk("X05.get", e.code = 200 /\ e.row = <<e.did, e.k, Repo(e.did).c[e.k], Repo(e.did).c[e.k]>>)
              ELSE Chk("X05.get-missing", e.code = 400 /\ e.err = "RecordNotFound"))
    [] e.m = "list" ->
         LET c == Repo(e.did).c
             ks == ByRank({k \in DOMAIN c : X.coll[k] = e.coll})
             got == Flat(e.pages)
         IN IF ~e.supp THEN Chk("X06.unsupported-listed", got = <<>>)
            ELSE Read(e, "X06",
                   Chk("X06.list-raised", e.code = 200)
                   \cup Chk("X06.list-terminates", e.code # 200 \/ e.done)
                   \cup Chk("X06.page-size", \A i \in DOMAIN e.pages : Len(e.pages[i]) <= e.limit)
                   \cup Chk("X06.records", (e.code = 200 /\ e.done) =>
                          got = [i \in DOMAIN ks |-> <<e.did, ks[i], c[ks[i]], c[ks[i]]>>]))
    [] e.m = "repos" ->
         LET ds == SelectSeq(s.hdr.sorted, LAMBDA d : d \in DOMAIN s.repos)
             got == Flat(e.pages)
             b(d) == HeadBlk(d)
         IN Chk("X06.repos-raised", e.code = 200)
            \cup Chk("X06.repos-terminates", e.code # 200 \/ e.done)
            \cup Chk("X06.repos-page-size", \A i \in DOMAIN e.pages : Len(e.pages[i]) <= e.limit)
            \cup Chk("X06.repos", (e.code = 200 /\ e.done) => [i \in DOMAIN got |-> got[i].did] = ds)
            \cup Chk("X07.repos-head", \A r \in AsSet(got) : Exists(r.did) => r.head = Repo(r.did).head)
            \cup Chk("X07.repos-rev", \A r \in AsSet(got) : Exists(r.did) => r.rev = b(r.did).rev /\ r.clock = b(r.did).clock)
            \cup Chk("X07.repos-status", \A r \in AsSet(got) : Exists(r.did) =>
                       /\ r.active = (Repo(r.did).status = "active")
                       /\ r.status = ShownStatus(r.did))
    [] e.m = "blobs" ->
         LET bs == SelectSeq(s.blobs, LAMBDA b : e.did \in AsSet(b[1]) /\ b[2] # "")
         IN Read(e, "X06",
              Chk("X06.blobs-raised", e.code = 200)
              \cup Chk("X06.blobs-terminates", e.code # 200 \/ e.done)
              \cup Chk("X06.blobs-page-size", \A i \in DOMAIN e.pages : Len(e.pages[i]) <= e.limit)
              \cup Chk("X06.blobs", (e.code = 200 /\ e.done) => Flat(e.pages) = [i \in DOMAIN bs |-> bs[i][2]]))
    [] e.m = "head" ->
         Read(e, "X07", Chk("X07.head", e.code = 200 /\ e.head = Repo(e.did).head)
              \cup Chk("X07.rev", e.which = "getLatestCommit" =>
                         e.rev = HeadBlk(e.did).rev /\ e.clock = HeadBlk(e.did).clock))
    [] e.m = "status" ->
         IF Unknown(e) THEN Refused(e, "X07")
         ELSE Chk("X07.status", e.code = 200 /\ e.rdid = e.did /\ e.active = (Repo(e.did).status = "active")
                                /\ e.status = ShownStatus(e.did))
    [] e.m = "describe" ->
         Read(e, "X07", Chk("X07.describe", e.code = 200 /\ e.rdid = e.did /\ e.handle = Repo(e.did).handle /\ e.doc
                            /\ AsSet(e.colls) = (IF s.colls # {} THEN s.colls
                                                 ELSE {X.coll[k] : k \in DOMAIN Repo(e.did).c})))
    [] e.m = "export" ->
         Read(e, "X01",
              IF e.code # 200 THEN {"X01.raised"}
              ELSE Chk("X01.root", e.roots = <<Repo(e.did).head>>)
                   \cup Chk("X01.bytes", e.sound /\ \A i \in AsSet(e.ids) : Blk(i).ok)
                   \cup (IF e.since < 0
                         THEN Chk("X01.exact", AsSet(e.ids) = Full(e.did))
                              \cup Chk("X01.rebuilds", LET ids == AsSet(e.ids)
                                                       IN TreeIs(HeadBlk(e.did).data, [i \in ids |-> Blk(i)], Repo(e.did).c))
                         ELSE Chk("X01.since-complete", \A i \in Full(e.did) :
                                     (i \in DOMAIN s.blocks /\ s.blocks[i][1] >= e.since) => i \in AsSet(e.ids))
                              \cup Chk("X01.since-foreign", AsSet(e.ids) \subseteq Full(e.did))))
    [] e.m = "proof" ->
         Read(e, "X02",
              IF e.k \notin DOMAIN Repo(e.did).c
              THEN Chk("X02.missing", e.code = 400 /\ e.err = "RecordNotFound")
              ELSE Chk("X02.raised", e.code = 200)
                   \cup (IF e.code # 200 THEN {}
                         ELSE Chk("X02.root", e.roots = <<Repo(e.did).head>>)
                              \cup Chk("X02.bytes", e.sound /\ \A i \in AsSet(e.ids) : Blk(i).ok)
                              \cup Chk("X02.record", Repo(e.did).c[e.k] \in AsSet(e.ids))
                              \cup Chk("X02.commit", Repo(e.did).head \in AsSet(e.ids))
                              \cup Chk("X02.path", Path(HeadBlk(e.did).data, e.k) \subseteq AsSet(e.ids))))
    [] e.m = "blocks" ->
         Read(e, "X02",
              IF e.odd THEN Chk("X02.malformed", e.code = 400)
              ELSE IF \E i \in AsSet(e.want) : i \notin DOMAIN s.blocks
              THEN Chk("X02.blocks-missing", e.code = 400 /\ e.err = "BlockNotFound")
              ELSE Chk("X02.blocks", e.code = 200 /\ e.sound /\ AsSet(e.ids) = AsSet(e.want)))
    [] e.m = "blob" ->
         IF Access(e) # "" THEN Refused(e, "X07") ELSE {}
    [] e.m = "guarded" ->
         IF ~Authorised(e) THEN Chk("X04.accepted", e.code # 200 /\ ~e.leak) \cup Chk("X04.numbers", e.alloc = <<>>)
         ELSE IF e.which \in {"getSession", "refreshSession"}
         THEN Chk("X04.session-rejected", e.code = 200 /\ e.rdid = e.did) ELSE {}
    [] e.m = "session" ->
         IF e.good /\ Exists(e.did) THEN Chk("X04.session", e.code = 200 /\ e.leak /\ e.rdid = e.did)
         ELSE Chk("X04.token-given-out", e.code # 200 /\ ~e.leak)
    [] e.m = "import" ->
         IF ~Authorised(e) THEN Chk("X04.import-accepted", e.code # 200) \cup Chk("X04.numbers", e.alloc = <<>>)
         ELSE Chk("X03.bad-import-accepted", e.code = 200 => ImportMay(e))
              \cup Chk("X03.good-import-rejected", ImportMust(e) => e.code = 200)
              \cup Chk("X03.numbers", e.alloc = <<>>)
    [] OTHER -> {"machinery.method"}

(* what a fresh reader sees, as far as the callers' properties go *)
Contents == {"S03.contents", "S03.records", "S02.head", "S09.status", "S04.status",
             "S01.after-failure-contents", "S01.after-failure-records", "S01.after-failure-head",
             "S09.unexpected-repo", "S09.missing-repo", "S01.failed-commit-leaked"}
Traces == {"S08.log", "S01.after-failure-log", "S05.new-blocks", "S01.after-failure-new-blocks",
           "S07.neither-nor", "S05.write-once", "S07.last"}
Blame == IF s.last.op = "x" /\ s.last.r # "ok" /\ s.last.auth # "ok" THEN "X04"
         ELSE IF s.last.m = "import" THEN "X03" ELSE s.hdr.prop

XFailing(e) ==
  CASE e.op = "x" -> FailX(e)
    [] e.op \in {"blob", "restrict"} -> {}
    [] e.op = "obs" -> LET F == Failing(e)
                       IN Blamed(Blame \o ".state", F \cap Contents) \cup Blamed(Blame \o ".side-effects", F \cap Traces)
    [] e.op = "commit" /\ s.hdr.prop = "X03" ->
         Chk("X03.commits-normally", (CommitExpected(e) = "ok") = (e.r = "ok"))
         \cup (IF e.r = "ok" THEN Blamed("X03.commit", Failing(e)) ELSE {})
    [] e.op = "raised" -> {s.hdr.prop \o ".raised-" \o e.what}
    [] OTHER -> {}

XLast(st, e) == [st EXCEPT !.last = [op |-> "x", did |-> e.did, r |-> e.r, seqs |-> AsSet(e.alloc), m |-> e.m,
                                     auth |-> IF Has(e, "auth") THEN e.auth ELSE "ok"]]
Used(st, d) == IF d \in DOMAIN st.repos
               THEN [st EXCEPT !.used = (d :> ((IF d \in DOMAIN @ THEN @[d] ELSE {}) \cup DOMAIN st.repos[d].c)) @@ @]
               ELSE st

Plain(st) == IF Has(st.last, "m") THEN st ELSE [st EXCEPT !.last = @ @@ [m |-> "", auth |-> "ok"]]

XEffect(e) ==
  CASE e.op = "init" -> Plain(Fresh(e)) @@ [used |-> Empty, blobs |-> <<>>, colls |-> {}]
    [] e.op = "blob" -> [s EXCEPT !.blobs = e.rows]
    [] e.op = "restrict" -> [s EXCEPT !.colls = AsSet(e.colls)]
    [] e.op = "x" /\ e.m \in {"create", "put", "delete"} /\ Wanted(e) /\ e.code = 200 /\ ~Noop(e) /\ e.alloc # <<>> ->
         LET res == Apply(Repo(e.did).c, <<WriteOp(e)>>, BadVals)
             seq == e.alloc[Len(e.alloc)]
         IN Used(XLast([Numbers(s, e, AsSet(e.alloc) \ {seq}) EXCEPT
                     !.repos[e.did].c = res.c, !.repos[e.did].head = e.head, !.repos[e.did].rev = seq,
                     !.log = Append(@, LogRow("commit", seq, e.did, e.head, Repo(e.did).head, res.ops, "", "", ""))],
                  e), e.did)
    [] e.op = "x" /\ e.m = "import" /\ e.code = 200 /\ ImportMay(e) ->
         XLast([Numbers(s, [e EXCEPT !.r = "ok"], {}) EXCEPT
            !.repos = (e.did :> [c |-> ImportedC(e), head |-> RootOf(e), rev |-> 0, status |-> "deactivated",
                                 handle |-> e.handle]) @@ @,
            !.last.seqs = {0}], [e EXCEPT !.alloc = <<0>>])
    [] e.op = "x" /\ e.m \in {"create", "put", "delete", "import", "guarded", "session"} ->
         XLast(Numbers(s, e, AsSet(e.alloc)), [e EXCEPT !.r = IF e.code = 200 THEN "ok" ELSE "failed"])
    [] e.op = "x" -> s
    [] e.op \in {"create", "commit", "status", "event"} ->
         Used(Plain(Effect(e)), e.did)
    [] OTHER -> Plain(Effect(e))

XNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ bad' = bad \cup {<<l, n>> : n \in New(bad, XFailing(Trace[l]))}
         /\ s' = XEffect(Trace[l])
XSpec == TraceInit /\ [][XNext]_vars
=============================================================================
