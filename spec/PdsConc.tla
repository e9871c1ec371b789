-------------------------------- MODULE PdsConc --------------------------------
(***************************************************************************)
(* Validates concurrent executions of the real storage layer on one shared   *)
(* database.  The chain of previous commits, from the head back to the base,  *)
(* is the claimed serial order; replaying the successful commits in that      *)
(* order through the sequential state machine of Pds.tla must explain         *)
(* everything that is stored and everything every caller was told.            *)
(***************************************************************************)
EXTENDS Pds, TraceLib

VARIABLES l, s, bad
vars == <<l, s, bad>>

blk == s.blk
Blk(id) == IF id \in DOMAIN blk THEN blk[id] ELSE [kind |-> "none", ok |-> FALSE, l |-> 0, e |-> <<>>]
BadVals == AsSet(s.bad)
FromPairs(ps) == [k \in {p[1] : p \in AsSet(ps)} |-> (CHOOSE p \in AsSet(ps) : p[1] = k)[2]]
Pairs(c) == {<<k, c[k]>> : k \in DOMAIN c}

CommitCalls(e) == {i \in DOMAIN e.calls : e.calls[i].op = "commit"}
NotesOf(c, kind) == SelectSeq(c.notes, LAMBDA n : n[1] = kind)
(* the commit a call made durable, as far as its caller or observer was told *)
Told(c) == IF c.r = "ok" THEN c.ret.commit
           ELSE LET ns == NotesOf(c, "commit") IN IF ns = <<>> THEN 0 ELSE ns[1][3]
Wins(e) == {i \in CommitCalls(e) : Told(e.calls[i]) # 0}

(* contents after each commit of the chain, oldest first *)
RECURSIVE Replay(_, _, _, _)
Replay(e, i, c, acc) ==
  IF i > Len(e.chain) THEN acc
  ELSE LET js == {j \in Wins(e) : Told(e.calls[j]) = e.chain[i]}
           res == IF js = {} THEN [ok |-> FALSE, c |-> Empty, ops |-> <<>>]
                  ELSE Apply(c, e.calls[CHOOSE j \in js : TRUE].ws, BadVals)
       IN Replay(e, i + 1, IF res.ok THEN res.c ELSE c, Append(acc, res))

FailConc(e) ==
  LET n == Len(e.chain)
      c0 == FromPairs(e.base.c)
      rs == Replay(e, 2, c0, <<[ok |-> TRUE, c |-> c0, ops |-> <<>>]>>)
      wins == Wins(e)
      mine(i) == e.calls[CHOOSE j \in wins : Told(e.calls[j]) = e.chain[i]]
      hasMine(i) == \E j \in wins : Told(e.calls[j]) = e.chain[i]
      pos(j) == CHOOSE i \in 2..n : e.chain[i] = Told(e.calls[j])
      commits == SelectSeq(e.log, LAMBDA r : r.kind = "commit" /\ r.did = e.did)
      used == {e.log[i].seq : i \in DOMAIN e.log}
      alloc == UNION {AsSet(e.calls[j].alloc) : j \in DOMAIN e.calls}
      lost == {x[2] : x \in UNION {{m \in AsSet(e.calls[j].notes) : m[1] = "lost"} : j \in DOMAIN e.calls}}
      silent == UNION {AsSet(e.calls[j].alloc) : j \in
                   {k \in DOMAIN e.calls : e.calls[k].cb = "none" /\ e.calls[k].r # "ok"}}
      stored == {b[1] : b \in AsSet(e.blocks)}
      (* statuses: only one worker changes them, in program order *)
      sts == {j \in DOMAIN e.calls : e.calls[j].op = "status" /\ e.calls[j].what # ""}
      after(j, st) == NewStatus(st, e.calls[j].what)
      RECURSIVE Fold(_, _)
      Fold(S, st) == IF S = {} THEN st ELSE Fold(S \ {Min(S)}, after(Min(S), st))
      stBefore(j) == Fold({k \in sts : k < j}, e.base.status)
      (* statuses in force at some moment of a call *)
      possible(c) == {stBefore(j) : j \in {k \in sts : e.calls[k].end > c.begin /\ e.calls[k].begin < c.end}}
                     \cup {Fold({k \in sts : e.calls[k].begin < c.end}, e.base.status)}
                     \cup {Fold({k \in sts : e.calls[k].end <= c.begin}, e.base.status)}
  IN Chk("S06.hang", e.outcome = "done" /\ \A j \in DOMAIN e.calls : e.calls[j].r # "hang")
     \cup Chk("S06.chain", /\ n > 0 /\ e.chain[1] = e.base.head
                           /\ \A i \in 2..n : /\ Blk(e.chain[i]).kind = "commit" /\ Blk(e.chain[i]).ok
                                              /\ Blk(e.chain[i]).prev = e.chain[i - 1]
                                              /\ Blk(e.chain[i]).did = e.did)
     \cup Chk("S06.each-success-once", /\ {Told(e.calls[j]) : j \in wins} = {e.chain[i] : i \in 2..n}
                                       /\ Cardinality(wins) = n - 1)
     \cup Chk("S06.serial", \A i \in 2..n : rs[i].ok)
     \cup Chk("S06.tree", \A i \in 2..n : rs[i].ok => TreeIs(Blk(e.chain[i]).data, blk, rs[i].c))
     \cup Chk("S06.contents", n > 0 /\ AsSet(e.repo.c) = Pairs(rs[n].c) /\ AsSet(e.repo.one) = Pairs(rs[n].c))
     \cup Chk("S06.head", n > 0 /\ e.repo.head = e.chain[n])
     \cup Chk("S06.ops", \A i \in 2..n : hasMine(i) /\ mine(i).r = "ok" =>
                             /\ mine(i).ret.ops = rs[i].ops
                             /\ mine(i).ret.prev = e.chain[i - 1])
     \cup Chk("S06.real-time", \A a \in wins : \A b \in wins :
                 ( /\ e.calls[a].end < e.calls[b].begin
                   /\ Told(e.calls[a]) \in {e.chain[i] : i \in 2..n}
                   /\ Told(e.calls[b]) \in {e.chain[i] : i \in 2..n} ) => pos(a) < pos(b))
     \cup Chk("S06.orphan", \A id \in stored : Blk(id).kind = "commit" /\ Blk(id).did = e.did =>
                 \/ id \in {e.chain[i] : i \in 1..n}
                 \/ id \in AsSet(e.base.older))
     \cup Chk("S06.log", /\ {commits[i].commit : i \in DOMAIN commits} = {e.chain[i] : i \in 1..n}
                         /\ Len(commits) = n
                         /\ \A i \in DOMAIN commits : \A k \in 2..n : commits[i].commit = e.chain[k] =>
                               /\ rs[k].ok => commits[i].ops = rs[k].ops
                               /\ hasMine(k) => commits[i].seq \in AsSet(mine(k).alloc))
     \cup Chk("S06.persisted", \A i \in 2..n : rs[i].ok =>
                 /\ NodesOf(Blk(e.chain[i]).data, blk) \subseteq stored
                 /\ {rs[i].c[k] : k \in DOMAIN rs[i].c} \subseteq stored)
     \cup Chk("S02.concurrent", \A i \in 2..n : Blk(e.chain[i]).kind = "commit" =>
                 /\ Blk(e.chain[i]).sig /\ Blk(e.chain[i]).ver = 3
                 /\ hasMine(i) => Blk(e.chain[i]).rev \in AsSet(mine(i).alloc))
     \cup Chk("S07.concurrent", /\ alloc = {q \in used : q > e.base.rev /\ q \in alloc} \cup lost \cup silent
                                /\ used \cap lost = {}
                                /\ \A q \in used : q > e.base.last => q \in alloc
                                /\ \A a, b \in DOMAIN e.calls : a # b =>
                                      AsSet(e.calls[a].alloc) \cap AsSet(e.calls[b].alloc) = {})
     \cup Chk("S07.concurrent-notes", \A j \in CommitCalls(e) : LET c == e.calls[j] IN
                 c.cb # "none" /\ c.r # "hang" =>
                   IF Told(c) # 0 THEN Len(c.notes) = 1 /\ c.notes[1][1] = "commit"
                   ELSE \A m \in AsSet(c.notes) : m[1] = "lost")
     \cup Chk("S04.concurrent-status", e.repo.status = Fold(sts, e.base.status))
     \cup Chk("S04.concurrent-commit", \A j \in wins : "active" \in possible(e.calls[j]))

Failing(e) == CASE e.op = "init" -> {}
                [] e.op = "conc" -> FailConc(e)
                [] OTHER -> {}
Effect(e) == IF e.op = "init" THEN e ELSE s

TraceInit == l = 1 /\ s = [x |-> 1] /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ bad' = bad \cup {<<l, n>> : n \in New(bad, Failing(Trace[l]))}
             /\ s' = Effect(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_vars
Verdict == l = Len(Trace) + 1 => JsonSerialize(IOEnv.OUT, SetToSeq(bad))
=============================================================================
