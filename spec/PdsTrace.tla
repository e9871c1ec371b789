-------------------------------- MODULE PdsTrace --------------------------------
(***************************************************************************)
(* Validates recorded executions of arroba.storage / arroba.repo /           *)
(* arroba.datastore_storage against the state machine of Pds.tla.            *)
(*                                                                         *)
(* Every operation event is followed by an "obs" event: everything a fresh   *)
(* reader sees (repos by DID and handle, their records, the event log from   *)
(* the start, every stored block).                                          *)
(***************************************************************************)
EXTENDS Pds, TraceLib

VARIABLES l, s, bad
vars == <<l, s, bad>>

(***************************************************************************)
(* State: hdr; repos (DID -> [c, head, rev, status, handle]); log; blocks    *)
(* (id -> <<seq, did>>); alloc, lost: sequence numbers; pend: the commits and *)
(* events since the last observation that must now be visible; raised: DIDs   *)
(* with a failed commit since ...                                            *)
(***************************************************************************)
Fresh(e) == [hdr |-> e, repos |-> Empty, log |-> <<>>, blocks |-> Empty,
             alloc |-> {}, lost |-> {}, unreported |-> {},
             failed |-> {}, last |-> [op |-> "init", did |-> "", r |-> "ok", seqs |-> {}]]

blk == s.hdr.blk
Blk(id) == IF id \in DOMAIN blk THEN blk[id] ELSE [kind |-> "none", ok |-> FALSE, l |-> 0, e |-> <<>>]
BadVals == AsSet(s.hdr.bad)
Repo(d) == s.repos[d]
Exists(d) == d \in DOMAIN s.repos
Active(d) == Exists(d) /\ Repo(d).status = "active"

CommitExpected(e) ==
  IF ~Active(e.did) THEN "inactive"
  ELSE IF Apply(Repo(e.did).c, e.ws, BadVals).ok THEN "ok" ELSE "invalid"

NotesOf(e, kind) == SelectSeq(e.notes, LAMBDA n : n[1] = kind)

(* a new head commit for DID d with contents c, predecessor p, number seq *)
HeadChecks(id, d, c, p, seq, oldrev) ==
  LET b == Blk(id)
  IN Chk("S02.commit-block", b.kind = "commit" /\ b.ok)
     \cup (IF b.kind # "commit" THEN {} ELSE
           Chk("S02.did", b.did = d)
           \cup Chk("S02.version", b.ver = 3)
           \cup Chk("S02.prev", b.prev = p)
           \cup Chk("S02.data", TreeIs(b.data, blk, c))
           \cup Chk("S02.rev", b.rev = seq /\ b.clock = 0)
           \cup Chk("S02.rev-order", b.rev > oldrev)
           \cup Chk("S02.signature", b.sig))

(* what one call that allocated sequence numbers must have told the callback *)
CommitNotes(e) ==
  IF e.cb = "none" THEN Chk("S07.notes", e.notes = <<>>)
  ELSE IF e.r = "ok" \/ (e.cb = "raise" /\ NotesOf(e, "commit") # <<>>)
  THEN Chk("S07.notified-once", /\ Len(e.notes) = 1
                                /\ e.notes[1][1] = "commit"
                                /\ e.notes[1][2] = e.alloc[Len(e.alloc)]
                                /\ e.r = "ok" => e.notes[1][3] = e.ret.commit)
  ELSE Chk("S07.lost-reported", /\ Len(e.notes) = Len(e.alloc)
                                /\ \A i \in DOMAIN e.notes : e.notes[i][1] = "lost"
                                /\ {e.notes[i][2] : i \in DOMAIN e.notes} = AsSet(e.alloc))

(* the observer failed after the commit: it is durable all the same *)
Durable(e) == e.r = "ok" \/ (e.op # "event" /\ e.cb = "raise" /\ CommitExpected(e) = "ok" /\ ~e.hit)

EventNotes(e) ==
  IF e.cb = "none" THEN {}
  ELSE IF e.r = "ok" \/ e.cb = "raise"
  THEN Chk("S07.event-notified", Len(e.notes) = Len(e.alloc)
             /\ \A i \in DOMAIN e.notes : e.notes[i][1] = "event" /\ e.notes[i][2] = e.alloc[i])
  ELSE Chk("S07.event-lost", \A q \in AsSet(e.alloc) : \E n \in AsSet(e.notes) :
                                n[1] \in {"event", "lost"} /\ n[2] = q)

AllocChecks(e) ==
  Chk("S07.reused-number", AsSet(e.alloc) \cap s.alloc = {} /\ NoDup(e.alloc))

(***************************************************************************)
(* Operations                                                               *)
(***************************************************************************)
FailCommit(e) ==
  Chk("S01.handle-changed", e.r = "raised" /\ NotesOf(e, "commit") = <<>> => e.kept) \cup
  LET exp == CommitExpected(e)
      res == IF exp = "ok" THEN Apply(Repo(e.did).c, e.ws, BadVals) ELSE [ok |-> FALSE]
  IN CASE e.r = "hang" -> {"S01.hang"}
       [] e.r = "crash" -> {}
       [] e.r = "ok" /\ exp = "inactive" -> {"S04.inactive-commit-accepted"}
       [] e.r = "ok" /\ exp = "invalid" -> {"S01.invalid-commit-accepted"}
       [] e.r = "ok" ->
            HeadChecks(e.ret.commit, e.did, res.c, Repo(e.did).head,
                       e.alloc[Len(e.alloc)], Repo(e.did).rev)
            \cup Chk("S03.ops", e.ret.ops = res.ops)
            \cup Chk("S03.returned-seq", e.ret.seq = e.alloc[Len(e.alloc)])
            \cup Chk("S03.returned-prev", e.ret.prev = Repo(e.did).head)
            \cup Chk("S03.own-handle", AsSet(e.own) = {<<k, res.c[k]>> : k \in DOMAIN res.c})
            \cup CommitNotes(e) \cup AllocChecks(e)
       [] exp = "ok" /\ ~e.hit /\ e.cb # "raise" -> {"S03.valid-commit-rejected"} \cup CommitNotes(e)
       [] exp = "ok" /\ ~e.hit -> CommitNotes(e) \cup AllocChecks(e)      \* observer failed
       [] OTHER -> CommitNotes(e) \cup AllocChecks(e)

FailStatus(e) ==
  LET st == Repo(e.did).status
      new == NewStatus(st, e.what)
  IN CASE e.r = "hang" -> {"S04.hang"}
       [] e.r # "ok" /\ ~e.hit /\ e.cb # "raise" -> {"S04.status-change-failed"}
       [] OTHER -> AllocChecks(e) \cup EventNotes(e)
                   \cup (IF e.r = "ok" /\ new # st THEN Chk("S04.one-event", Len(e.alloc) = 1) ELSE {})
                   \cup (IF st = "tombstoned" /\ e.what # "tombstone"
                         THEN Chk("S04.event-for-tombstoned", e.alloc = <<>>) ELSE {})

Failing(e) ==
  CASE e.op = "init" -> {}
    [] e.op = "commit" -> FailCommit(e)
    [] e.op = "status" -> FailStatus(e)
    [] e.op = "create" ->
         IF e.r = "hang" THEN {"S09.hang"}
         ELSE IF e.r # "ok" THEN (IF ~e.hit /\ e.cb # "raise" THEN {"S09.create-failed"} ELSE {})
         ELSE Chk("S07.create-numbers", Len(e.alloc) = 4) \cup AllocChecks(e)
              \cup HeadChecks(e.ret.commit, e.did, Empty, 0, e.alloc[1], 0)
              \cup (IF e.cb = "none" THEN {}
                    ELSE Chk("S07.create-notified", Len(e.notes) = Len(e.alloc)
                             /\ \A i \in DOMAIN e.notes :
                                  /\ e.notes[i][2] = e.alloc[i]
                                  /\ e.notes[i][1] = (IF i = 1 THEN "commit" ELSE "event")))
    [] e.op = "createfail" ->  \* repo creation that met a failing storage call; the last event of a trace
         LET used == AsSet(e.used) \cap AsSet(e.alloc)
             lost == {n[2] : n \in {x \in AsSet(e.notes) : x[1] = "lost"}}
         IN IF e.r \in {"hang", "crash"} THEN {}
            ELSE Chk("S07.create-both", used \cap lost = {})
                 \cup Chk("S07.create-neither", e.cb = "none" \/ AsSet(e.alloc) = used \cup lost)
                 \cup Chk("S07.create-told", e.cb = "none" \/ \A q \in used :
                          Cardinality({i \in DOMAIN e.notes : e.notes[i][1] \in {"commit", "event"}
                                                              /\ e.notes[i][2] = q}) = 1)
                 \cup Chk("S09.create-result", e.found = (e.r = "ok"))
    [] e.op = "event" -> IF e.r # "ok" /\ ~e.hit /\ e.cb # "raise" THEN {"S07.event-failed"}
                         ELSE AllocChecks(e) \cup EventNotes(e)
    [] e.op = "rewrite" -> Chk("S05.rewrite-raised", e.r = "ok")   \* stored blocks, written again
    [] e.op = "imported" -> Chk("S05.import-raised", e.r = "ok")
    [] e.op = "rename" -> Chk("S09.rename-raised", e.r = "ok")
    [] e.op = "obs" ->
       LET did == s.last.did
           \* a mismatch is blamed on the property of what happened last
           Cl(name, prop) == (IF s.last.r # "ok" THEN "S01.after-failure-" ELSE prop \o ".") \o name
           Later(d, names) == names \cup (IF names # {} /\ d \in s.failed
                                          THEN {"S01.failed-commit-leaked"} ELSE {})
           repoChecks(o) ==
             IF ~Exists(o.did) THEN {"S09.unexpected-repo"}
             ELSE LET m == Repo(o.did)
                      want == {<<k, m.c[k]>> : k \in DOMAIN m.c}
                  IN Later(o.did,
                       Chk(Cl("contents", "S03"), AsSet(o.c) = want /\ Len(o.c) = Cardinality(want))
                       \cup Chk(Cl("records", "S03"), AsSet(o.one) = want)
                       \cup Chk(Cl("head", "S02"), o.head = m.head /\ o.seq = m.rev))
                     \cup Chk((IF s.last.op = "status" THEN "S04." ELSE "S09.") \o "status", o.status = m.status)
                     \cup Chk("S09.handle", o.handle = m.handle)
                     \cup Chk("S09.keys", o.skey = "s:" \o o.did /\ o.rkey = "r:" \o o.did)
                     \cup Chk("S09.by-handle", o.byhandle.did = o.did /\ o.byhandle.head = o.head
                                /\ o.byhandle.status = o.status /\ o.byhandle.handle = o.handle
                                /\ o.byhandle.skey = o.skey /\ o.byhandle.rkey = o.rkey)
           n == Len(s.log)
           logsame == Len(e.log) = n /\ \A i \in 1..n : e.log[i].seq = s.log[i].seq
                         /\ e.log[i].kind = s.log[i].kind /\ e.log[i].did = s.log[i].did
                         /\ e.log[i].commit = s.log[i].commit /\ e.log[i].prev = s.log[i].prev
                         /\ e.log[i].ops = s.log[i].ops
                         /\ e.log[i].type = s.log[i].type /\ e.log[i].active = s.log[i].active
                         /\ e.log[i].status = s.log[i].status
           logblocks(r) == r.kind = "commit" =>
                /\ r.commit \in AsSet(r.blocks)
                /\ Blk(r.commit).data \in AsSet(r.blocks)
                /\ \A o \in AsSet(r.ops) : o[3] # 0 => o[3] \in AsSet(r.blocks)
           bmap == [id \in {b[1] : b \in AsSet(e.blocks)} |->
                      LET b == CHOOSE b \in AsSet(e.blocks) : b[1] = id IN <<b[2], b[3]>>]
           news == DOMAIN bmap \ DOMAIN s.blocks
           okseqs == s.last.seqs
           used == {s.log[i].seq : i \in 1..n}
       IN UNION {repoChecks(o) : o \in AsSet(e.repos)}
          \cup Chk("S09.missing-repo", {o.did : o \in AsSet(e.repos)} = DOMAIN s.repos)
          \cup Chk(Cl("log", "S08"), logsame)
          \cup Chk("S08.order", \A i \in 1..Len(e.log) - 1 : e.log[i].seq < e.log[i + 1].seq)
          \cup Chk("S08.blocks", \A r \in AsSet(e.log) : logblocks(r))
          \cup Chk("S05.write-once", \A id \in DOMAIN s.blocks : id \in DOMAIN bmap /\ bmap[id] = s.blocks[id])
          \cup Chk("S05.bytes", \A id \in DOMAIN bmap : Blk(id).ok)
          \cup Chk(Cl("new-blocks", "S05"), \A id \in news : bmap[id][1] \in s.last.seqs)
          \cup Chk("S05.first-repo", \A id \in news : bmap[id][2] = did)
          \cup Chk(Cl("persisted", "S05"), \A d \in DOMAIN s.repos : Repo(d).head # 0 =>
                 /\ Repo(d).head \in DOMAIN bmap
                 /\ NodesOf(Blk(Repo(d).head).data, blk) \subseteq DOMAIN bmap
                 /\ {Repo(d).c[k] : k \in DOMAIN Repo(d).c} \subseteq DOMAIN bmap)
          \cup Chk("S07.neither-nor", s.alloc = used \cup s.lost \cup s.unreported)
          \cup Chk("S07.both", used \cap s.lost = {})
          \cup Chk("S07.last", e.last = (IF s.alloc = {} THEN 0 ELSE Max(s.alloc)))
    [] e.op = "events" ->      \* the log from some number on, perhaps for one repo
         LET want == SelectSeq(s.log, LAMBDA r : r.seq >= e.start /\ (e.repo = "" \/ r.did = e.repo))
         IN Chk("S08.replay", /\ [i \in DOMAIN e.log |-> <<e.log[i].seq, e.log[i].commit>>]
                                   = [i \in DOMAIN want |-> <<want[i].seq, want[i].commit>>]
                              /\ \A i \in DOMAIN e.log : e.log[i].ops = want[i].ops)
            \cup Chk("S08.replay-blocks", \A r \in AsSet(e.log) : r.kind = "commit" =>
                        /\ r.commit \in AsSet(r.blocks)
                        /\ Blk(r.commit).data \in AsSet(r.blocks)
                        /\ \A o \in AsSet(r.ops) : o[3] # 0 => o[3] \in AsSet(r.blocks))
    [] e.op = "reads" ->       \* every read path, for stored and absent blocks; 0 = absent
         Chk("S05.has", \A i \in DOMAIN e.ids : e.has[i] = (e.ids[i] \in DOMAIN s.blocks))
         \cup Chk("S05.read", \A i \in DOMAIN e.ids :
                e.read[i] = (IF e.ids[i] \in DOMAIN s.blocks THEN e.ids[i] ELSE 0))
         \cup Chk("S05.read-seq", \A i \in DOMAIN e.ids :
                e.ids[i] \in DOMAIN s.blocks => e.seqs[i] = s.blocks[e.ids[i]][1])
         \cup Chk("S05.read-many", \A i \in DOMAIN e.ids :
                e.many[i] = (IF e.ids[i] \in DOMAIN s.blocks THEN e.ids[i] ELSE 0))
         \cup Chk("S05.read-raw", \A i \in DOMAIN e.ids :
                e.raw[i] = (IF e.ids[i] \in DOMAIN s.blocks THEN e.ids[i] ELSE 0))
         \cup Chk("S05.raw-seq", \A i \in DOMAIN e.ids :
                e.ids[i] \in DOMAIN s.blocks => e.rawseqs[i] = s.blocks[e.ids[i]][1])
    [] e.op = "reads-absent-raised" -> {"S05.absent-raised"}
    [] e.op = "page" ->        \* load_repos(after, limit)
         LET ds == SelectSeq(s.hdr.sorted, LAMBDA d : d \in DOMAIN s.repos
                                 /\ (e.after = 0 \/ \A i \in DOMAIN s.hdr.sorted :
                                        s.hdr.sorted[i] = d => i > e.after))
             want == SubSeq(ds, 1, IF Len(ds) < e.limit THEN Len(ds) ELSE e.limit)
         IN Chk("S09.page", [i \in DOMAIN e.rows |-> e.rows[i].did] = want)
            \cup Chk("S09.page-rows", \A r \in AsSet(e.rows) : Exists(r.did) =>
                   /\ r.head = Repo(r.did).head
                   /\ r.status = Repo(r.did).status
                   /\ (e.minimal \/ (/\ r.handle = Repo(r.did).handle
                                     /\ r.skey = "s:" \o r.did /\ r.rkey = "r:" \o r.did)))
    [] e.op = "unknown" -> Chk("S09.unknown", e.found = FALSE)
    [] e.op = "payload" ->     \* a commit's firehose payload: what process_event makes of it
         LET is == {i \in DOMAIN s.log : s.log[i].seq = e.seq}
             r == s.log[CHOOSE i \in is : TRUE]
             new == Blk(r.commit).data
             old == IF r.prev = 0 THEN 0 ELSE Blk(r.prev).data
             ship == AsSet(e.blocks)
             opsOf(x) == [i \in DOMAIN x |-> <<x[i][1], x[i][2], x[i][3], x[i][4]>>]
         IN IF is = {} THEN {"M05.unknown-seq"}
            ELSE Chk("M05.root", e.root = r.commit /\ e.commit = r.commit)
                 \cup Chk("M05.commit-block", r.commit \in ship)
                 \cup Chk("M05.tree-root", new \in ship)
                 \cup Chk("M05.records", \A o \in AsSet(r.ops) : o[3] # 0 => o[3] \in ship)
                 \cup Chk("M05.bytes", \A b \in ship : Blk(b).ok)
                 \cup Chk("M05.ops", opsOf(e.ops) = r.ops)
                 \cup Chk("M05.prev-data", e.prevdata = old)
                 \cup Chk("M05.did", e.did = r.did)
                 \cup (IF old = 0 THEN {}
                       ELSE Chk("M05.invertible",
                                Invertible(new, {b \in ship : Blk(b).kind = "node"}, opsOf(e.ops),
                                           old, blk, s.hdr.lay)))
    [] e.op = "raised" -> {s.hdr.prop \o ".raised-" \o e.what}
    [] OTHER -> {"machinery"}

(***************************************************************************)
(* Effects                                                                  *)
(***************************************************************************)
LogRow(kind, seq, did, commit, prev, ops, type, active, status) ==
  [kind |-> kind, seq |-> seq, did |-> did, commit |-> commit, prev |-> prev, ops |-> ops,
   type |-> type, active |-> active, status |-> status]

LostBy(e) == {n[2] : n \in {x \in AsSet(e.notes) : x[1] = "lost"}}
(* numbers allocated by a call that failed with nobody to tell *)
Unrep(e) == IF e.cb = "none" /\ e.r # "ok" THEN AsSet(e.alloc) ELSE {}

Numbers(st, e, unrep) ==
  [st EXCEPT !.alloc = @ \cup AsSet(e.alloc), !.lost = @ \cup LostBy(e),
             !.unreported = @ \cup unrep,
             !.last = [op |-> e.op, did |-> e.did, r |-> e.r, seqs |-> AsSet(e.alloc)]]

InsertRow(log, r) == SortSeq(Append(log, r), LAMBDA a, b : a.seq < b.seq)

AppendRows(log, rs) == log \o rs

(* with a failing observer the new commit's id is known only from its notification *)
CommitId(e) == IF e.r = "ok" THEN e.ret.commit
               ELSE LET ns == NotesOf(e, "commit") IN IF ns = <<>> THEN 0 ELSE ns[1][3]

Effect(e) ==
  CASE e.op = "init" -> Fresh(e)
    [] e.op = "commit" /\ CommitExpected(e) = "ok" /\ (e.r = "ok" \/ (e.cb = "raise" /\ CommitId(e) # 0)) ->
         LET res == Apply(Repo(e.did).c, e.ws, BadVals)
             seq == e.alloc[Len(e.alloc)]
         IN [Numbers(s, e, AsSet(e.alloc) \ {seq}) EXCEPT
               !.repos[e.did].c = res.c, !.repos[e.did].head = CommitId(e), !.repos[e.did].rev = seq,
               !.log = Append(@, LogRow("commit", seq, e.did, CommitId(e), Repo(e.did).head,
                                        res.ops, "", "", "")),
               !.last.r = "ok"]
    [] e.op = "commit" -> [Numbers(s, e, Unrep(e)) EXCEPT !.failed = @ \cup {e.did}, !.last.r = "failed"]
    [] e.op = "status" ->
         LET new == NewStatus(Repo(e.did).status, e.what)
             done == e.alloc # <<>> /\ (e.r = "ok" \/ e.cb = "raise")
         IN [Numbers(s, e, Unrep(e)) EXCEPT
               !.repos[e.did].status = new,
               !.log = IF done
                       THEN Append(@, LogRow("event", e.alloc[1], e.did, 0, 0, <<>>,
                              IF e.what = "tombstone" THEN "tombstone" ELSE "account",
                              IF e.what = "tombstone" THEN "None"
                              ELSE IF e.what = "activate" THEN "True" ELSE "False",
                              IF e.what = "deactivate" THEN "deactivated" ELSE "None"))
                       ELSE @,
               !.last.r = "ok"]
    [] e.op = "event" -> 
         [Numbers(s, e, Unrep(e)) EXCEPT
            !.log = IF e.r = "ok" \/ (e.cb = "raise" /\ ~e.hit)
                    THEN Append(@, LogRow("event", e.alloc[1], e.did, 0, 0, <<>>, e.type, "None", "None"))
                    ELSE @,
            !.last.r = "ok"]
    [] e.op = "create" /\ e.r = "ok" /\ Len(e.alloc) = 4 ->
         [Numbers(s, e, {}) EXCEPT
            !.repos = (e.did :> [c |-> Empty, head |-> e.ret.commit, rev |-> e.alloc[1], status |-> "active",
                                 handle |-> e.handle]) @@ @,
            !.log = @ \o <<LogRow("commit", e.alloc[1], e.did, e.ret.commit, 0, <<>>, "", "", ""),
                           LogRow("event", e.alloc[2], e.did, 0, 0, <<>>, "identity", "None", "None"),
                           LogRow("event", e.alloc[3], e.did, 0, 0, <<>>, "account", "True", "None"),
                           LogRow("event", e.alloc[4], e.did, 0, 0, <<>>, "sync", "None", "None")>>]
    [] e.op = "imported" -> [s EXCEPT !.last = [op |-> "imported", did |-> e.did, r |-> "ok", seqs |-> {0}]]
    [] e.op = "rename" -> [s EXCEPT !.repos[e.did].handle = e.handle,
                                    !.last = [op |-> "rename", did |-> e.did, r |-> "ok", seqs |-> {}]]
    [] e.op = "rewrite" -> [s EXCEPT !.last = [op |-> "rewrite", did |-> "", r |-> "ok", seqs |-> {}]]
    [] e.op = "obs" ->
         [s EXCEPT !.blocks = [id \in {b[1] : b \in AsSet(e.blocks)} |->
                      LET b == CHOOSE b \in AsSet(e.blocks) : b[1] = id IN <<b[2], b[3]>>]]
    [] OTHER -> s

TraceInit == l = 1 /\ s = Fresh([x |-> 1]) /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ bad' = bad \cup {<<l, n>> : n \in New(bad, Failing(Trace[l]))}
             /\ s' = Effect(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_vars
Verdict == l = Len(Trace) + 1 => JsonSerialize(IOEnv.OUT, SetToSeq(bad))
=============================================================================
