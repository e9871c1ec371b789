------------------------------- MODULE PlcGen -------------------------------
(* Histories of calls on several DIDs, for the real code. *)
EXTENDS PlcDir, TLC, Json, IOUtils, CSV

CONSTANTS NDids, NKeys, Depth
VARIABLES logs, h
vars == <<logs, h>>

Pct(n) == RandomElement(1..100) <= n
Pick(S, x) == RandomElement(S)
Dflt == "https://pds.local"
NewSk == 100
NewRk == 200

Op(a, prev, by) == [prev |-> prev, rot |-> a.rot, by |-> by, aka |-> a.aka, pds |-> a.pds, sk |-> a.sk, null |-> FALSE]

Aliases(x) == CASE RandomElement(1..5) = 1 -> <<"https://x.y/">>
                [] RandomElement(1..4) = 1 -> <<"at://other.h", "z">>
                [] RandomElement(1..3) = 1 -> <<"p", "q", "r">>
                [] OTHER -> <<>>
GivenAka(x) == IF Pct(45) THEN <<1, Aliases(x)>> ELSE <<0, <<>>>>
Handle(x) == RandomElement({"at://a.b", "at://c.d.e", "at://F.g"})
Rk(d) == IF logs[d] = <<>> \/ Pct(12) THEN RandomElement(1..NKeys)
         ELSE RandomElement(Ran(Current(logs[d]).rot))
Nrk(x) == IF Pct(30) THEN RandomElement(1..NKeys) ELSE 0

Init == logs = [d \in 1..NDids |-> <<>>] /\ h = <<>>

(* The generator follows the requirement, not the code: what a valid call should do. *)
Race(log) == LET cur == Current(log)
             IN Op([aka |-> <<"at://race.r">>, pds |-> "https://else", sk |-> 1, rot |-> cur.rot],
                   HeadIx(log), {cur.rot[1]})
Do(d, c) ==
  /\ h' = Append(h, [d |-> d, c |-> c])
  /\ logs' = IF c.fault = "race" THEN [logs EXCEPT ![d] = Add(@, Race(@))]
             ELSE IF c.fault \in {"", "post-lost"} /\ c.bad = "" /\ Valid(c, logs[d])
             THEN LET op == Op(Asked(c, logs[d], Dflt), IF logs[d] = <<>> THEN 0 ELSE HeadIx(logs[d]), {c.rk})
                  IN [logs EXCEPT ![d] = Add(@, op)]
             ELSE logs

PostFault(x) == IF Pct(12) THEN RandomElement({"post-400", "post-500", "post-down", "post-lost"}) ELSE ""
Fault(x) == IF Pct(12) THEN RandomElement({"get-404", "get-500", "get-down", "get-empty", "post-400", "post-500", "post-down", "post-lost", "race"}) ELSE ""
BadArg(x) == IF Pct(8) THEN RandomElement({"handle", "curve-signing", "curve-rotation", "slash", "public-rotation"}) ELSE ""

Create == \E d \in {RandomElement(1..NDids)} : \E c \in {
    [kind |-> "create", handle |-> Handle(d), aka |-> GivenAka(d), pds |-> Pick({"", "https://p.q", "http://r"}, d),
     (* keys above NKeys: not given, the library makes them up *)
     sk |-> IF Pct(30) THEN NewSk + d ELSE Pick(1..NKeys, d), rk |-> IF Pct(30) THEN NewRk + d ELSE Pick(1..NKeys, d),
     nrk |-> IF Pct(8) THEN RandomElement(1..NKeys) ELSE 0,
     n |-> 0, fault |-> PostFault(d), bad |-> BadArg(d)]} :
  logs[d] = <<>> /\ Do(d, c)

Update == \E d \in {RandomElement(1..NDids)} : \E c \in {
    [kind |-> "update", handle |-> IF Pct(50) THEN "" ELSE Handle(d), aka |-> GivenAka(d),
     pds |-> Pick({"", "https://p.q", "http://r"}, d), sk |-> Pick(1..NKeys, d), rk |-> Rk(d), nrk |-> Nrk(d),
     n |-> 0, fault |-> Fault(d), bad |-> BadArg(d)]} :
  logs[d] # <<>> /\ Do(d, c)

Rollback == \E d \in {RandomElement(1..NDids)} : \E c \in {
    [kind |-> "rollback", handle |-> "", aka |-> <<0, <<>>>>, pds |-> "", sk |-> 0, rk |-> Rk(d), nrk |-> 0,
     n |-> Pick({1, 1, 2, 3, 4}, d), fault |-> Fault(d), bad |-> ""]} :
  logs[d] # <<>> /\ Do(d, c)

(* someone else's operation: several rotation keys, or a recovery that nullifies *)
Foreign == \E d \in {RandomElement(1..NDids)} :
  /\ logs[d] # <<>>
  /\ \E p \in {IF Pct(50) THEN HeadIx(logs[d]) ELSE RandomElement(Ran(Chain(logs[d])))},
        rot \in {Pick({<<1, 2>>, <<2, 1>>, <<3, 1, 2>>, <<1>>, <<2>>}, d)} :
     \E k \in {RandomElement(Ran(logs[d][p].rot))} :
     LET op == Op([aka |-> <<Handle(d)>> \o Aliases(d), pds |-> "https://else", sk |-> RandomElement(1..NKeys), rot |-> rot], p, {k})
     IN /\ Accepts(logs[d], op)
        /\ logs' = [logs EXCEPT ![d] = Add(@, op)]
        /\ h' = Append(h, [d |-> d, c |-> [kind |-> "foreign", prev |-> p, rot |-> rot, by |-> k, aka |-> op.aka,
                                           pds |-> op.pds, sk |-> op.sk]])

Skip == h' = Append(h, [d |-> 0, c |-> [kind |-> "skip"]]) /\ UNCHANGED logs

Next == /\ Len(h) < Depth
        /\ \E r \in {RandomElement(1..100)} :
             IF (\A d \in 1..NDids : logs[d] = <<>>) \/ r <= 12 THEN Create \/ Skip
             ELSE IF r <= 55 THEN Update \/ Skip
             ELSE IF r <= 75 THEN Rollback \/ Skip
             ELSE Foreign \/ Skip
Spec == Init /\ [][Next]_vars
Dump == Len(h) = Depth => CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.DUMP)
=============================================================================
