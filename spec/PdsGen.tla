--------------------------------- MODULE PdsGen ---------------------------------
(***************************************************************************)
(* Generates operation histories for the real storage layer from the state   *)
(* machine of Pds.tla (TLC -simulate, or exhaustively with small constants).  *)
(* A history is a sequence of operations; when it has reached Depth it is     *)
(* written to IOEnv.DUMP.                                                    *)
(***************************************************************************)
EXTENDS Pds, Json, IOUtils, CSV

CONSTANTS NDids, NKeys, NVals, NBad, NSlots, Depth, Weird, StPct, EvPct, MaxBatch

VARIABLES repos, slots, h
vars == <<repos, slots, h>>

Dids == 1..NDids
Keys == 1..NKeys
Vals == 1..NVals
Bad == (NVals + 1)..(NVals + NBad)

Init == repos = Empty /\ slots = [x \in 1..NSlots |-> 0] /\ h = <<>>

Valid(c) == {<<"create", k, v>> : k \in Keys \ DOMAIN c, v \in Vals}
            \cup {<<"update", k, v>> : k \in DOMAIN c, v \in Vals}
            \cup {<<"delete", k, 0>> : k \in DOMAIN c}
Invalid(c) == {<<"create", k, v>> : k \in DOMAIN c, v \in Vals}
              \cup {<<"update", k, v>> : k \in Keys \ DOMAIN c, v \in Vals}
              \cup {<<"delete", k, 0>> : k \in Keys \ DOMAIN c}
              \cup {<<"create", k, v>> : k \in Keys, v \in Bad}
              \cup {<<"update", k, v>> : k \in DOMAIN c, v \in Bad}
              \cup {<<"create", 0, v>> : v \in Vals}

Pct(p) == RandomElement(1..100) <= p

(* TLC evaluates a LET anew at each use, so random choices are bound as set elements *)
Only(S) == CHOOSE x \in S : TRUE

RECURSIVE Batch(_, _, _)
BatchStep(c, n, ws, w) ==
  Batch(IF WriteOk(c, w, Bad) THEN WriteEffect(c, w) ELSE c, n - 1, Append(ws, w))
Batch(c, n, ws) ==
  IF n = 0 THEN ws
  ELSE Only({BatchStep(c, n, ws, w) : w \in {IF Pct(Weird) /\ Invalid(c) # {}
                                             THEN RandomElement(Invalid(c))
                                             ELSE RandomElement(Valid(c))}})

Cbs == <<"record", "record", "record", "none", "raise">>

Used == {x \in 1..NSlots : slots[x] # 0}
Log(op) == h' = Append(h, op)

Create == \E d \in {RandomElement(Dids \ DOMAIN repos)} :
  /\ \E x \in {RandomElement(1..NSlots)} :
       /\ slots' = [slots EXCEPT ![x] = d]
       /\ Log(<<"create", d, x, RandomElement({"record", "none"})>>)
  /\ repos' = (d :> [c |-> Empty, st |-> "active"]) @@ repos

Load == \E d \in {RandomElement(DOMAIN repos)} :
  /\ \E x \in {RandomElement(1..NSlots)} :
       /\ slots' = [slots EXCEPT ![x] = d]
       /\ Log(<<"load", d, x>>)
  /\ UNCHANGED repos

Commit == Used # {} /\ \E x \in {RandomElement(Used)} :
  LET d == slots[x]
  IN \E n \in {IF Pct(10) THEN 0 ELSE RandomElement(1..MaxBatch)} :
     \E ws \in {Batch(repos[d].c, n, <<>>)} :
     LET res == Apply(repos[d].c, ws, Bad)
     IN /\ Log(<<"commit", d, x, ws, Cbs[RandomElement(1..5)]>>)
        /\ repos' = IF repos[d].st = "active" /\ res.ok THEN [repos EXCEPT ![d].c = res.c] ELSE repos
        /\ UNCHANGED slots

Status == Used # {} /\ \E x \in {RandomElement(Used)} :
  \E what \in {<<"deactivate", "deactivate", "deactivate", "activate", "activate", "activate", "activate", "tombstone">>[RandomElement(1..8)]} :
     /\ Log(<<"status", slots[x], x, what, Cbs[RandomElement(1..5)]>>)
     /\ repos' = [repos EXCEPT ![slots[x]].st = NewStatus(@, what)]
     /\ UNCHANGED slots

Event == Used # {} /\ \E x \in {RandomElement(Used)} :
  /\ Log(<<"event", slots[x], x, RandomElement({"identity", "sync", "account"}), Cbs[RandomElement(1..5)]>>)
  /\ UNCHANGED <<repos, slots>>

Next == /\ Len(h) < Depth
        /\ IF repos = Empty THEN Create
           ELSE \E r \in {RandomElement(1..100)} :
                   IF r <= 10 /\ DOMAIN repos # Dids THEN Create
                   ELSE IF r <= 20 THEN Load
                   ELSE IF r <= 20 + StPct THEN Status
                   ELSE IF r <= 20 + StPct + EvPct THEN Event
                   ELSE Commit
Spec == Init /\ [][Next]_vars

Dump == Len(h) = Depth => CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.DUMP)
=============================================================================
