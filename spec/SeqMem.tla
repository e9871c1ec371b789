--------------------------------- MODULE SeqMem ---------------------------------
(***************************************************************************)
(* Design model of arroba.datastore_storage.MemcacheSequences: a counter in   *)
(* memcache (which may evict it at any time), backed by a `next` in the       *)
(* datastore that is kept Buffer above every number handed out, and a lower   *)
(* bound on `next` cached per process.                                       *)
(*                                                                         *)
(* Strict = TRUE restricts the environment to the one the design can stand:   *)
(* fewer than Buffer allocations in flight (or failed) since a number was     *)
(* last handed out, and no eviction while another process is between          *)
(* reserving a batch and installing its counter.  With Strict = FALSE TLC     *)
(* finds the known findings.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Procs, Threads,   \* threads per process
          Batch, Buffer, MaxSeq, Evictions, Aborts, Restarts, Strict,
          ReserveFirst      \* FALSE: the counter restarts at `next` without reserving (the old algorithm)

VARIABLES lost,    \* numbers taken by allocations that failed or whose process died
          cache,   \* -1: not there
          next, maxs, lockp, th, done, evs, abs, rst, order
vars == <<lost, cache, next, maxs, lockp, th, done, evs, abs, rst, order>>

T == Procs \X Threads
Idle == [pc |-> "idle", seq |-> 0, start |-> 0, floor |-> 0]
MaxS(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x

Init == /\ lost = {} /\ cache = -1 /\ next = 1 /\ maxs = [p \in Procs |-> 0] /\ lockp = [p \in Procs |-> 0]
        /\ th = [t \in T |-> Idle] /\ done = {} /\ evs = Evictions /\ abs = Aborts /\ rst = Restarts
        /\ order = TRUE

Set(t, pc) == th' = [th EXCEPT ![t].pc = pc]
InFlight == {t \in T : th[t].pc \notin {"idle"}}

Start(t) == /\ th[t].pc = "idle" /\ MaxS(done) < MaxSeq
            /\ Strict => Cardinality(InFlight) + Cardinality({x \in lost : x > MaxS(done)}) < Buffer - 1
            /\ th' = [th EXCEPT ![t] = [Idle EXCEPT !.pc = "incr", !.floor = MaxS(done)]]
            /\ UNCHANGED <<lost, cache, next, maxs, lockp, done, evs, abs, rst, order>>

Incr(t) == /\ th[t].pc \in {"incr", "incr2"}
           /\ IF cache = -1
              THEN th' = [th EXCEPT ![t].pc = IF th[t].pc = "incr" THEN "miss" ELSE "idle"] /\ UNCHANGED cache
              ELSE cache' = cache + 1 /\ th' = [th EXCEPT ![t].seq = cache + 1, ![t].pc = "check"]
           /\ UNCHANGED <<lost, next, maxs, lockp, done, evs, abs, rst, order>>

Reserve(t) == /\ th[t].pc = "miss" /\ lockp[t[1]] = 0
              /\ lockp' = [lockp EXCEPT ![t[1]] = t[2]]
              /\ th' = [th EXCEPT ![t].start = next, ![t].pc = "add"]
              /\ IF ReserveFirst THEN next' = next + Batch /\ maxs' = [maxs EXCEPT ![t[1]] = next + Batch]
                 ELSE next' = next /\ maxs' = [maxs EXCEPT ![t[1]] = next - 1]
              /\ UNCHANGED <<lost, cache, done, evs, abs, rst, order>>

Add(t) == /\ th[t].pc = "add"
          /\ cache' = IF cache = -1 THEN th[t].start - 1 ELSE cache
          /\ lockp' = [lockp EXCEPT ![t[1]] = 0]
          /\ Set(t, "incr2")
          /\ UNCHANGED <<lost, next, maxs, done, evs, abs, rst, order>>

Finish(t) == /\ th' = [th EXCEPT ![t] = Idle]
             /\ done' = done \cup {th[t].seq}
             /\ order' = (order /\ th[t].seq \notin done /\ th[t].seq > th[t].floor)

Check(t) == /\ th[t].pc = "check" /\ lockp[t[1]] = 0
            /\ IF maxs[t[1]] - th[t].seq < Buffer
               THEN /\ Set(t, "batch") /\ lockp' = [lockp EXCEPT ![t[1]] = t[2]]
                    /\ UNCHANGED <<done, order>>
               ELSE Finish(t) /\ UNCHANGED lockp
            /\ UNCHANGED <<lost, cache, next, maxs, evs, abs, rst>>

BatchTx(t) == /\ th[t].pc = "batch"
              /\ lockp' = [lockp EXCEPT ![t[1]] = 0]
              /\ LET n == IF next - th[t].seq < Buffer THEN th[t].seq + Batch ELSE next
                 IN next' = n /\ maxs' = [maxs EXCEPT ![t[1]] = n]
              /\ Finish(t)
              /\ UNCHANGED <<lost, cache, evs, abs, rst>>

(* the datastore transaction fails cleanly: the allocation raises *)
Abort(t) == /\ abs > 0 /\ th[t].pc \in {"miss", "batch"}
            /\ abs' = abs - 1
            /\ th[t].pc = "batch" => lockp[t[1]] = t[2]
            /\ lockp' = IF th[t].pc = "batch" THEN [lockp EXCEPT ![t[1]] = 0] ELSE lockp
            /\ th' = [th EXCEPT ![t] = Idle]
            /\ lost' = lost \cup (IF th[t].pc = "batch" THEN {th[t].seq} ELSE {})
            /\ UNCHANGED <<cache, next, maxs, done, evs, rst, order>>

Evict == /\ evs > 0 /\ cache # -1 /\ evs' = evs - 1 /\ cache' = -1
         /\ Strict => \A t \in T : th[t].pc # "add"
         /\ UNCHANGED <<lost, next, maxs, lockp, th, done, abs, rst, order>>

Restart(p) == /\ rst > 0 /\ rst' = rst - 1
              /\ maxs' = [maxs EXCEPT ![p] = 0] /\ lockp' = [lockp EXCEPT ![p] = 0]
              /\ lost' = lost \cup {th[t].seq : t \in {u \in T : u[1] = p /\ th[u].pc \in {"check", "batch"}}}
              /\ th' = [t \in T |-> IF t[1] = p THEN Idle ELSE th[t]]
              /\ UNCHANGED <<cache, next, done, evs, abs, order>>

Next == (\E t \in T : Start(t) \/ Incr(t) \/ Reserve(t) \/ Add(t) \/ Check(t) \/ BatchTx(t) \/ Abort(t))
        \/ Evict \/ (\E p \in Procs : Restart(p))
Spec == Init /\ [][Next]_vars

(* Q01: every number handed out is new and above those finished before its allocation began *)
UniqueIncreasing == order
(* the inductive reason: `next` stays above every number handed out *)
Reserved == \A v \in done : v < next
Inv == UniqueIncreasing /\ Reserved
Bound == next < MaxSeq + 3 * Batch
=============================================================================
