------------------------------- MODULE Lease -------------------------------
(* Design model of an advisory lease kept in memcache (arroba/memcache.py):

   - a worker reads the clock, then asks memcache to add the key with an expiration; it
     believes it holds the lease until the time it read plus the expiration;
   - leaving the block, it deletes the key if it still believes that it holds it;
   - memcache forgets the key by itself once it has expired.

   Constants switch on weaknesses, so that TLC shows which of them each guarantee needs:
     AtomicRelease  no time passes between checking the clock and the delete
     ClockFirst     the clock is read before the add rather than after it
     ServerShort    how much earlier than asked memcache expires the key (rounding)
     ReleaseTwice   releasing again deletes again                                       *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Workers, Expire, Retries, MaxTime, Rounds,
          AtomicRelease, ClockFirst, ServerShort, ReleaseTwice

VARIABLES now, owner, exp, pc, read, until, tries, rounds, freed, act

vars == <<now, owner, exp, pc, read, until, tries, rounds, freed, act>>
None == 0

Init ==
    /\ now = 0 /\ owner = None /\ exp = 0
    /\ pc = [w \in Workers |-> "out"]
    /\ read = [w \in Workers |-> 0]
    /\ until = [w \in Workers |-> -1]
    /\ tries = [w \in Workers |-> 0]
    /\ rounds = [w \in Workers |-> 0]
    /\ freed = FALSE
    /\ act = <<"init", 0>>

Gone == owner = None \/ exp <= now

Step(w, name) == act' = <<name, w>>

(* The clock, before each attempt. *)
Begin(w) ==
    /\ pc[w] = "out" /\ rounds[w] < Rounds
    /\ rounds' = [rounds EXCEPT ![w] = @ + 1]
    /\ tries' = [tries EXCEPT ![w] = 0]
    /\ pc' = [pc EXCEPT ![w] = "add"]
    /\ read' = [read EXCEPT ![w] = now]
    /\ Step(w, "begin")
    /\ UNCHANGED <<now, owner, exp, until, freed>>

(* The server's side of the add, some time after the clock was read. *)
Add(w) ==
    /\ pc[w] = "add" /\ now > read[w]
    /\ Step(w, "add")
    /\ IF Gone
       THEN /\ owner' = w
            /\ exp' = now + Expire - ServerShort
            /\ pc' = [pc EXCEPT ![w] = "added"]
            /\ UNCHANGED <<tries, read>>
       ELSE /\ tries' = [tries EXCEPT ![w] = @ + 1]
            /\ pc' = [pc EXCEPT ![w] = IF tries[w] = Retries THEN "out" ELSE "wait"]
            /\ UNCHANGED <<owner, exp, read>>
    /\ UNCHANGED <<now, until, rounds, freed>>

Wait(w) ==
    /\ pc[w] = "wait"
    /\ pc' = [pc EXCEPT ![w] = "add"]
    /\ read' = [read EXCEPT ![w] = now]
    /\ Step(w, "retry")
    /\ UNCHANGED <<now, owner, exp, until, tries, rounds, freed>>

(* The answer arrives, and the worker enters the block. *)
Enter(w) ==
    /\ pc[w] = "added"
    /\ pc' = [pc EXCEPT ![w] = "in"]
    /\ until' = [until EXCEPT ![w] = (IF ClockFirst THEN read[w] ELSE now) + Expire]
    /\ Step(w, "enter")
    /\ UNCHANGED <<now, owner, exp, read, tries, rounds, freed>>

(* Deletes the key, whoever it belongs to: memcache does not know. *)
Delete(w) ==
    /\ owner' = None
    /\ freed' = (freed \/ (~Gone /\ owner # w))
    /\ UNCHANGED exp

Leave(w) ==
    /\ pc[w] = "in"
    /\ Step(w, "leave")
    /\ IF now > until[w]
       THEN /\ pc' = [pc EXCEPT ![w] = "left"]
            /\ UNCHANGED <<owner, exp, freed>>
       ELSE IF AtomicRelease
       THEN /\ Delete(w)
            /\ pc' = [pc EXCEPT ![w] = "left"]
       ELSE /\ pc' = [pc EXCEPT ![w] = "delete"]
            /\ UNCHANGED <<owner, exp, freed>>
    /\ UNCHANGED <<now, read, until, tries, rounds>>

LateDelete(w) ==
    /\ pc[w] = "delete"
    /\ Delete(w)
    /\ pc' = [pc EXCEPT ![w] = "left"]
    /\ Step(w, "delete")
    /\ UNCHANGED <<now, read, until, tries, rounds>>

Done(w) ==
    /\ pc[w] = "left"
    /\ pc' = [pc EXCEPT ![w] = "out"]
    /\ Step(w, "done")
    /\ IF ReleaseTwice /\ now <= until[w]
       THEN Delete(w)
       ELSE UNCHANGED <<owner, exp, freed>>
    /\ until' = [until EXCEPT ![w] = -1]
    /\ UNCHANGED <<now, read, tries, rounds>>

(* A worker may also die anywhere: it simply takes no more steps. *)
Tick ==
    /\ now < MaxTime
    /\ now' = now + 1
    /\ act' = <<"tick", 0>>
    /\ UNCHANGED <<owner, exp, pc, read, until, tries, rounds, freed>>

Next == Tick \/ \E w \in Workers :
            \/ Begin(w) \/ Add(w) \/ Wait(w) \/ Enter(w)
            \/ Leave(w) \/ LateDelete(w) \/ Done(w)

Spec == Init /\ [][Next]_vars

(* --- guarantees --- *)
Holding(w) == pc[w] \in {"in", "delete"} /\ now < until[w]

OneHolder == \A v, w \in Workers : v # w => ~(Holding(v) /\ Holding(w))
NotFreed == ~freed
Protected == \A w \in Workers : Holding(w) => owner = w /\ exp > now
FreedAtOnce == \A w \in Workers : pc[w] = "left" => owner # w \/ Gone \/ now > until[w]
Attempts == \A w \in Workers : tries[w] <= Retries + 1

Inv == OneHolder /\ NotFreed /\ Protected /\ FreedAtOnce /\ Attempts

View == <<now, owner, exp, pc, read, until, tries, rounds, freed>>
Sym == {}
=============================================================================
