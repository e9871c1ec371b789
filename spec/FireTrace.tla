-------------------------------- MODULE FireTrace --------------------------------
(***************************************************************************)
(* The event stream, specified by what subscribers see of whole concurrent    *)
(* executions: which numbers were allocated, became durable or were reported   *)
(* lost at which scheduler steps and (virtual) times, when the collector read   *)
(* the log and what it found, and what every subscriber received when.         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, TraceLib

VARIABLES l, bad
vars == <<l, bad>>

(* tables: [seq, step, time] rows *)
Seqs(t) == {r[1] : r \in AsSet(t)}
StepOf(t, s) == (CHOOSE r \in AsSet(t) : r[1] = s)[2]
TimeOf(t, s) == (CHOOSE r \in AsSet(t) : r[1] = s)[3]

Items(u) == [i \in DOMAIN u.items |-> [seq |-> u.items[i][1], c |-> u.items[i][2],
                                       step |-> u.items[i][3], time |-> u.items[i][4]]]
SeqSet(u) == {u.items[i][1] : i \in DOMAIN u.items}

(* everything about one execution that several clauses use *)
Facts(e) ==
  LET scans == e.scans
      durable == Seqs(e.durable)
      \* the preload that the stream started with: the last read of the log before it did
      pre == {k \in DOMAIN scans : scans[k].pre}
      first == IF pre = {} THEN 0 ELSE Max(pre)
      emitted == UNION {SeqSet(e.subs[i]) : i \in DOMAIN e.subs}
      \* the read from which a number was last taken, so from which it was emitted
      from == [n \in emitted |->
                 LET ks == {k \in DOMAIN scans : n \in AsSet(scans[k].got)}
                 IN IF ks = {} THEN 0 ELSE Max(ks)]
      \* numbers that the stream starts beyond, though they were still in flight, are out of the picture
      startalloc == IF first = 0 THEN {} ELSE {s \in Seqs(e.alloc) : StepOf(e.alloc, s) <= scans[first].begin}
      got == IF first = 0 THEN {} ELSE AsSet(scans[first].got)
      begins == IF got # {} THEN Max(got) ELSE Max({0} \cup startalloc)
      late0 == {s \in startalloc : s <= begins /\ (s \notin durable \/ StepOf(e.durable, s) > scans[first].begin)}
      \* durable before the stream moved past: the stream owes it to everyone
      due == {s \in durable \ late0 :
                \A n \in emitted : n > s /\ from[n] # 0 => StepOf(e.durable, s) < scans[from[n]].begin}
  IN [durable |-> durable, first |-> first, emitted |-> emitted, from |-> from, late0 |-> late0, due |-> due, begins |-> begins]

RealScans(e) == DOMAIN e.scans

Fail(e) ==
  LET f == Facts(e)
      P == e.params
      subs == e.subs
      D == DOMAIN subs
      pre == IF e.faults > 0 THEN "F05" ELSE "F02"
      N(n) == pre \o n
      truth == [s \in Seqs(e.truth) |-> StepOf(e.truth, s)]
      Excused(u) == u.end = "read failed"
      \* the first number the stream owes this subscriber
      Start(u) == IF u.cursor >= 0 THEN u.cursor
                  ELSE IF u.items # <<>> THEN u.items[1][1] ELSE 0
      Latest(u) == IF u.items = <<>> THEN 0 ELSE u.items[Len(u.items)][1]
      Holes(u) == {s \in f.due : s >= Start(u) /\ s < Latest(u) /\ s \notin SeqSet(u)}
      \* still owed at the end
      Owed(u) == IF u.end # "open" THEN {}
                 ELSE IF u.cursor >= 0 THEN {s \in f.due : s >= u.cursor /\ s > Latest(u)}
                 ELSE {s \in f.due : s > Latest(u) /\
                        \/ u.items # <<>>
                        \/ u.settled >= 0 /\ StepOf(e.durable, s) > u.settled}
      \* a subscriber that is a whole window behind may be dropped
      Behind(u) == Cardinality({s \in f.durable : s > Latest(u)}) >= P.rollback
      AllocAt(step) == Cardinality({s \in Seqs(e.alloc) : StepOf(e.alloc, s) <= step})
      \* the collector's first sight of something after s
      Sights(s) == {k \in RealScans(e) : k # f.first /\ \E n \in AsSet(e.scans[k].got) : n > s}
      GapOk(s, it) ==
        \/ s \in f.durable /\ StepOf(e.durable, s) <= it.step
        \/ s \in Seqs(e.lost) /\ StepOf(e.lost, s) <= it.step
        \/ Sights(s) = {}
        \/ it.time >= e.scans[Min(Sights(s))].time + P.delay
        \/ LET n1 == Min(UNION {{n \in AsSet(e.scans[k].got) : n > s} : k \in Sights(s)})
           IN AllocAt(it.step) - n1 > P.window
      \* numbers from the first the live stream can carry on
      Live == IF f.first = 0 THEN {} ELSE
              {s \in Seqs(e.alloc) : s > f.begins}
      \* nothing below n was in the way when read k began
      Unblocked(n, k) ==
        \A s \in Live : s < n =>
            \/ s \in f.durable /\ StepOf(e.durable, s) < e.scans[k].begin
            \/ s \in Seqs(e.lost) /\ StepOf(e.lost, s) < e.scans[k].begin
  IN  Chk("F01.increasing", \A u \in D : \A i \in 1..(Len(subs[u].items) - 1) :
                               subs[u].items[i][1] < subs[u].items[i + 1][1])
      \cup Chk("F01.same", \A u, v \in D : \A i \in DOMAIN subs[u].items : \A j \in DOMAIN subs[v].items :
                               subs[u].items[i][1] = subs[v].items[j][1] => subs[u].items[i][2] = subs[v].items[j][2])
      \cup Chk("F01.stored", \A u \in D : \A i \in DOMAIN subs[u].items :
                               subs[u].items[i][1] \in DOMAIN truth /\ truth[subs[u].items[i][1]] = subs[u].items[i][2])
      \cup Chk(N(".holes"), \A u \in D : Holes(subs[u]) = {})
      \cup Chk(N(".before-cursor"), \A u \in D : subs[u].cursor >= 0 =>
                               \A s \in SeqSet(subs[u]) : s >= subs[u].cursor)
      \cup Chk(N(".raised"), \A u \in D : subs[u].end \in {"raised", "ended"} => Behind(subs[u]))
      \cup Chk("F03.waits", \A u \in D : \A i \in DOMAIN subs[u].items :
                               \A s \in Live : s < subs[u].items[i][1] => GapOk(s, Items(subs[u])[i]))
      \cup Chk("F03.lost-prompt",
               e.faults = 0 => \A u \in D : subs[u].end = "open" /\ ~e.slow /\ subs[u].settled >= 0 =>
                 \A k \in RealScans(e) : k # f.first /\ e.scans[k].begin > subs[u].settled =>
                   \A n \in AsSet(e.scans[k].got) :
                     n \in SeqSet(subs[u]) /\ Unblocked(n, k) =>
                       \A i \in DOMAIN subs[u].items : subs[u].items[i][1] = n =>
                         subs[u].items[i][4] <= e.scans[k].time + P.batch)
      \cup Chk(IF e.faults > 0 THEN "F05.delivered" ELSE "F06.delivered", \A u \in D : Owed(subs[u]) = {})
      \cup Chk("F06.collectors", e.collectors <= 1)
      \cup Chk("F06.start", e.startok)
      \cup Chk(IF e.faults > 0 THEN "F05.alive" ELSE "F06.alive", e.outcome = "until" /\ e.crashed = <<>>)

Failing(e) == IF e.op = "exec" THEN Fail(e) ELSE {}

TraceInit == l = 1 /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ bad' = bad \cup {<<l, n>> : n \in New(bad, Failing(Trace[l]))}
TraceSpec == TraceInit /\ [][TraceNext]_vars
Verdict == l = Len(Trace) + 1 => JsonSerialize(IOEnv.OUT, SetToSeq(bad))
=============================================================================
