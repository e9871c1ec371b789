-------------------------------- MODULE Plc --------------------------------
(* Design model: a library client that builds operations from the audit log it fetched, a
   directory that judges them, and other clients that write and recover meanwhile.
   The client's algorithm is that of arroba/did.py: the last entry of the audit log is the
   previous operation, and a rollback repeats the n-th operation before it.              *)
EXTENDS PlcDir

CONSTANTS Keys, Handles, Endpoints, MaxLog, MaxForeign,
          SkipNullified      (* a rollback does not count nullified operations *)

VARIABLES log, call, seen, foreign, wrong
vars == <<log, call, seen, foreign, wrong>>

NoCall == [kind |-> ""]
Akas == {<<>>, <<"x">>}
Dflt == "pds"

Op(a, prev, by) == [prev |-> prev, rot |-> a.rot, by |-> by, aka |-> a.aka, pds |-> a.pds, sk |-> a.sk, null |-> FALSE]

(* the library's own view of the fetched log *)
Entries(lg) == IF SkipNullified THEN Chain(lg) ELSE [i \in DOMAIN lg |-> i]
Built(c, lg) ==
  IF c.kind # "rollback" THEN Op(Asked(c, lg, Dflt), IF c.kind = "create" THEN 0 ELSE Len(lg), {c.rk})
  ELSE LET es == Entries(lg) old == lg[es[Len(es) - c.n]]
       IN Op([aka |-> old.aka, pds |-> old.pds, sk |-> old.sk, rot |-> old.rot], Len(lg), {c.rk})

Init == log = <<>> /\ call = NoCall /\ seen = <<>> /\ foreign = 0 /\ wrong = {}

Calls ==
  [kind : {"create", "update"}, handle : Handles \cup {""}, aka : {<<0, <<>>>>} \cup {<<1, a>> : a \in Akas},
   pds : Endpoints \cup {""}, sk : {1}, rk : Keys, nrk : Keys \cup {0}, n : {0}]
  \cup [kind : {"rollback"}, handle : {""}, aka : {<<0, <<>>>>}, pds : {""}, sk : {1}, rk : Keys, nrk : {0}, n : 1..2]

Begin == /\ call = NoCall /\ Len(log) < MaxLog
         /\ \E c \in Calls :
              /\ c.kind = "create" => c.handle # "" /\ log = <<>>
              /\ Valid(c, log)
              /\ call' = c
         /\ seen' = log
         /\ UNCHANGED <<log, foreign, wrong>>

Post == /\ call # NoCall
        /\ call' = NoCall
        /\ LET op == Built(call, seen)
               want == Asked(call, log, Dflt)
           IN IF Accepts(log, op)
              THEN /\ log' = Add(log, op)
                   /\ wrong' = IF seen # log \/ (Doc(op) = [aka |-> want.aka, pds |-> want.pds, sk |-> want.sk]
                                                  /\ op.rot = want.rot) THEN wrong ELSE wrong \cup {"doc"}
              ELSE /\ log' = log
                   /\ wrong' = IF seen = log THEN wrong \cup {"refused"} ELSE wrong
        /\ UNCHANGED <<seen, foreign>>

(* another client of the same DID, with several keys; recoveries nullify *)
Foreign ==
  /\ log # <<>> /\ foreign < MaxForeign /\ Len(log) < MaxLog
  /\ \E p \in DOMAIN log, k \in Keys, h \in Handles, rot \in {<<a, b>> : a, b \in Keys} \cup {<<a>> : a \in Keys} :
       LET op == Op([aka |-> <<h>>, pds |-> "else", sk |-> 2, rot |-> rot], p, {k})
       IN Accepts(log, op) /\ log' = Add(log, op)
  /\ foreign' = foreign + 1
  /\ UNCHANGED <<call, seen, wrong>>

Next == Begin \/ Post \/ Foreign
Spec == Init /\ [][Next]_vars

Inv == /\ wrong = {}
       /\ log # <<>> => ~log[Len(log)].null

=============================================================================
