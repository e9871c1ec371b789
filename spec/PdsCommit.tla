------------------------------- MODULE PdsCommit -------------------------------
(***************************************************************************)
(* Design model of concurrent commits on one shared database with optimistic  *)
(* transactions, as arroba.storage.Storage.commit and                        *)
(* arroba.datastore_storage.DatastoreStorage._commit are meant to work:       *)
(* allocate a number (own transaction), then begin (snapshot), then one       *)
(* atomic database commit that stores blocks, head and log entry, retried on  *)
(* conflict; the caller's observer is told afterwards.                        *)
(* Faults: a clean failure of any database call, or death of the process.     *)
(*                                                                         *)
(* Checked exhaustively; its complete behaviours (`sched`) are also replayed  *)
(* as schedules of the real code.                                            *)
(***************************************************************************)
EXTENDS Pds, Json, IOUtils, CSV

CONSTANTS Workers, Keys, Retries, Faults, Observers, DumpOn
(* Observers: subset of {"ok", "raise"}; Faults: number of injected failures *)

VARIABLES chain,   \* sequence of [w, ws, c, seq]: the durable commits
          log,     \* set of [seq, w]
          next,    \* next sequence number
          st,      \* worker -> [pc, seq, snap, ws, left, obs, told]
          faults, sched
vars == <<chain, log, next, st, faults, sched>>

Vals == 1..2
Writes == {<<<<"create", k, v>>>> : k \in Keys, v \in Vals}
          \cup {<<<<"delete", k, 0>>>> : k \in Keys}
          \cup {<<<<"create", k, 1>>, <<"update", k, 2>>>> : k \in Keys}

Init == /\ chain = <<[w |-> "", ws |-> <<>>, c |-> Empty, seq |-> 1]>>
        /\ log = {[seq |-> 1, w |-> ""]}
        /\ next = 2
        /\ \E f \in [Workers -> Writes], o \in [Workers -> Observers] :
             st = [w \in Workers |-> [pc |-> "start", seq |-> 0, snap |-> 0, ws |-> f[w],
                                      left |-> Retries, obs |-> o[w], told |-> <<>>]]
        /\ faults = Faults
        /\ sched = <<>>

Go(w) == sched' = IF DumpOn THEN Append(sched, w) ELSE sched

Lose(x) == [x EXCEPT !.pc = "failed", !.told = Append(@, <<"lost", x.seq>>)]

Allocate(w) == /\ st[w].pc = "start"
               /\ st' = [st EXCEPT ![w].seq = next, ![w].pc = "alloced"]
               /\ next' = next + 1
               /\ Go(w)
               /\ UNCHANGED <<chain, log, faults>>

Begin(w) == /\ st[w].pc = "alloced"
            /\ st' = [st EXCEPT ![w].snap = Len(chain), ![w].pc = "tx"]
            /\ Go(w)
            /\ UNCHANGED <<chain, log, next, faults>>

(* the operations do not apply to the contents of the snapshot *)
Invalid(w) == /\ st[w].pc = "tx"
              /\ ~Apply(chain[st[w].snap].c, st[w].ws, {}).ok
              /\ st' = [st EXCEPT ![w] = Lose(@)]
              /\ Go(w)
              /\ UNCHANGED <<chain, log, next, faults>>

Commit(w) == LET res == Apply(chain[st[w].snap].c, st[w].ws, {})
             IN /\ st[w].pc = "tx" /\ res.ok
                /\ IF st[w].snap = Len(chain)
                   THEN /\ chain' = Append(chain, [w |-> w, ws |-> st[w].ws, c |-> res.c, seq |-> st[w].seq])
                        /\ log' = log \cup {[seq |-> st[w].seq, w |-> w]}
                        /\ st' = [st EXCEPT ![w].pc = IF st[w].obs = "raise" THEN "raised" ELSE "ok",
                                            ![w].told = Append(@, <<"commit", st[w].seq>>)]
                   ELSE /\ st' = [st EXCEPT ![w] = IF st[w].left = 0 THEN Lose(@)
                                                  ELSE [@ EXCEPT !.pc = "alloced", !.left = @ - 1]]
                        /\ UNCHANGED <<chain, log>>
                /\ Go(w)
                /\ UNCHANGED <<next, faults>>

Fault(w) == /\ faults > 0 /\ faults' = faults - 1
            /\ st[w].pc \in {"start", "alloced", "tx"}
            /\ \/ st' = [st EXCEPT ![w] = IF st[w].pc = "start" THEN [@ EXCEPT !.pc = "failed"] ELSE Lose(@)]
               \/ st' = [st EXCEPT ![w].pc = "dead"]
            /\ Go(w)
            /\ UNCHANGED <<chain, log, next>>

Done == \A w \in Workers : st[w].pc \in {"ok", "raised", "failed", "dead"}
Next == (\E w \in Workers : Allocate(w) \/ Begin(w) \/ Invalid(w) \/ Commit(w) \/ Fault(w))
        \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
             /\ \A w \in Workers : WF_vars(Allocate(w) \/ Begin(w) \/ Invalid(w) \/ Commit(w))

(* S06 / S01: the chain is a serial order of exactly the successful commits *)
Serial == \A i \in 2..Len(chain) :
            LET r == Apply(chain[i - 1].c, chain[i].ws, {}) IN r.ok /\ chain[i].c = r.c
Durable(w) == \E i \in 2..Len(chain) : chain[i].w = w
NoLostUpdate == \A w \in Workers : (st[w].pc \in {"ok", "raised"}) <=> Durable(w)
Once == \A i, j \in 2..Len(chain) : chain[i].w = chain[j].w => i = j
(* S08: the log has exactly the durable commits *)
LogComplete == log = {[seq |-> chain[i].seq, w |-> chain[i].w] : i \in DOMAIN chain}
(* S07: every number a living worker took is on one durable commit or reported lost *)
Numbers == \A w \in Workers : st[w].seq # 0 /\ st[w].pc \in {"ok", "raised", "failed"} =>
             LET used == \E r \in log : r.seq = st[w].seq
                 lost == <<"lost", st[w].seq>> \in {st[w].told[i] : i \in DOMAIN st[w].told}
             IN used # lost /\ Len(st[w].told) = 1
Unique == \A a, b \in Workers : a # b /\ st[a].seq # 0 => st[a].seq # st[b].seq
Inv == Serial /\ NoLostUpdate /\ Once /\ LogComplete /\ Numbers /\ Unique
Finishes == <>Done

Dump == Done => CSVWrite("%1$s", <<ToJson([sched |-> sched,
                   jobs |-> [w \in Workers |-> st[w].ws], res |-> [w \in Workers |-> st[w].pc],
                   final |-> Len(chain)])>>, IOEnv.DUMP)
=============================================================================
