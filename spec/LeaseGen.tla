------------------------------ MODULE LeaseGen ------------------------------
(* Behaviours of Lease.tla as schedules for the real code, one per line. *)
EXTENDS Lease, Json, IOUtils, TLC, CSV

CONSTANT Depth
VARIABLE log

Outcome == [log |-> log, pc |-> pc, owner |-> IF Gone THEN None ELSE owner]

GenInit == Init /\ log = <<>>
GenNext == Len(log) < Depth /\ Next /\ log' = Append(log, act')
GenSpec == GenInit /\ [][GenNext]_<<vars, log>>

Dump == Len(log) = Depth => CSVWrite("%1$s", <<ToJson(Outcome)>>, IOEnv.DUMP)
=============================================================================
