--------------------------------- MODULE XrpcGen ---------------------------------
(***************************************************************************)
(* Histories for the XRPC interface: those of PdsGen (storage calls) mixed    *)
(* with API calls, on readable, inactive and unknown repos (DID 0).           *)
(* An API operation is <<"x", method, did, key, value, how>>: key 0 lets the   *)
(* server pick one, -1 is a key that the server picked earlier, -2 a bad path; *)
(* how: "ok", an authentication failure ("auth") or an unsupported swap.       *)
(***************************************************************************)
EXTENDS PdsGen

CONSTANTS ApiPct, AuthPct, SwapPct

How(x) == IF Pct(AuthPct) THEN "auth" ELSE IF Pct(SwapPct) THEN "swap" ELSE "ok"

Apply1(d, w) == IF repos[d].st = "active" /\ WriteOk(repos[d].c, w, Bad)
                THEN [repos EXCEPT ![d].c = WriteEffect(@, w)] ELSE repos

Call(m, d, k, v, how) ==
  /\ Log(<<"x", m, d, k, v, how>>)
  /\ repos' = IF how # "ok" \/ d \notin DOMAIN repos \/ k <= 0 THEN repos
              ELSE Apply1(d, IF m = "delete" THEN <<"delete", k, 0>>
                             ELSE IF k \in DOMAIN repos[d].c THEN <<"update", k, v>> ELSE <<"create", k, v>>)
  /\ UNCHANGED slots

Target == IF Pct(7) THEN 0 ELSE RandomElement(DOMAIN repos)
Value(x) == IF Pct(Weird) THEN RandomElement(Bad) ELSE RandomElement(Vals)
Key(m, d) == IF Pct(Weird) THEN -2
             ELSE IF m = "create" /\ Pct(60) THEN 0
             ELSE IF Pct(20) THEN -1
             ELSE IF m = "delete" /\ d \in DOMAIN repos /\ DOMAIN repos[d].c # {} /\ Pct(80)
                  THEN RandomElement(DOMAIN repos[d].c)
             ELSE RandomElement(Keys)

Api == \E d \in {Target} : \E m \in {RandomElement({"create", "put", "delete"})} :
         \E k \in {Key(m, d)} : \E v \in {IF m = "delete" THEN 0 ELSE Value(m)} : \E how \in {How(m)} :
            Call(m, d, k, v, how)

XNext == /\ Len(h) < Depth
         /\ IF repos = Empty THEN Create
            ELSE \E r \in {RandomElement(1..100)} :
                    IF r <= ApiPct THEN Api
                    ELSE IF r <= ApiPct + 8 /\ DOMAIN repos # Dids THEN Create
                    ELSE IF r <= ApiPct + 10 THEN Load
                    ELSE IF r <= ApiPct + 10 + StPct THEN Status
                    ELSE Commit
XSpec == Init /\ [][XNext]_vars
=============================================================================
