--------------------------------- MODULE TidGen ----------------------------------
(***************************************************************************)
(* Design model of the TID generator: callers in several threads, a clock that  *)
(* moves any way it likes, one shared variable with the last number issued.      *)
(* With Atomic, taking the clock's value and the next number is one step (a      *)
(* lock); without it a caller computes, stores and re-reads in separate steps    *)
(* and TLC finds the duplicates (TidGen_unlocked in DESIGN.md).                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Callers, MaxClock, MaxCalls, Atomic

VARIABLES clock, lastn, pc, tmp, lo, floor, out
vars == <<clock, lastn, pc, tmp, lo, floor, out>>

Max(a, b) == IF a > b THEN a ELSE b
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE m \in S : \A n \in S : n <= m

Init == /\ clock \in 0..MaxClock /\ lastn = 0 /\ out = <<>>
        /\ pc = [c \in Callers |-> "idle"] /\ tmp = [c \in Callers |-> 0]
        /\ lo = tmp /\ floor = tmp

Tick == /\ \E t \in 0..MaxClock : /\ clock' = t
                                  /\ lo' = [c \in Callers |-> IF pc[c] # "idle" /\ t < lo[c] THEN t ELSE lo[c]]
        /\ UNCHANGED <<lastn, pc, tmp, floor, out>>

Results == {out[i] : i \in DOMAIN out}
Call(c) == /\ pc[c] = "idle" /\ Len(out) < MaxCalls
           /\ pc' = [pc EXCEPT ![c] = "compute"]
           /\ lo' = [lo EXCEPT ![c] = clock]
           /\ floor' = [floor EXCEPT ![c] = MaxOf(Results)]
           /\ UNCHANGED <<clock, lastn, tmp, out>>
Compute(c) == /\ pc[c] = "compute"
              /\ tmp' = [tmp EXCEPT ![c] = Max(clock, lastn + 1)]
              /\ lastn' = IF Atomic THEN tmp'[c] ELSE lastn
              /\ pc' = [pc EXCEPT ![c] = IF Atomic THEN "return" ELSE "store"]
              /\ UNCHANGED <<clock, lo, floor, out>>
Store(c) == /\ pc[c] = "store" /\ lastn' = tmp[c]
            /\ pc' = [pc EXCEPT ![c] = "return"]
            /\ UNCHANGED <<clock, tmp, lo, floor, out>>
Return(c) == /\ pc[c] = "return"
             /\ out' = Append(out, IF Atomic THEN tmp[c] ELSE lastn)
             /\ Assert(Atomic => out'[Len(out')] > floor[c] /\ out'[Len(out')] >= lo[c], "order")
             /\ pc' = [pc EXCEPT ![c] = "idle"]
             /\ UNCHANGED <<clock, lastn, tmp, lo, floor>>

Next == Tick \/ \E c \in Callers : Call(c) \/ Compute(c) \/ Store(c) \/ Return(c)
GenSpec == Init /\ [][Next]_vars

Distinct == Cardinality(Results) = Len(out)
=============================================================================
