----------------------------- MODULE ResolveGen -----------------------------
(* Design model of a caching resolver of one name, and generator of outcome sequences: in
   each call DNS and HTTPS give one of several outcomes.  Every sequence is dumped.
   A name resolved once may be answered from memory, a failure may not.               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV

CONSTANTS Dns, Https,        (* numbers of outcomes *)
          GoodDns, GoodHttps,   (* those up to these are successes *)
          Calls, CacheFailures, Sample

VARIABLES h, memo, wrong
vars == <<h, memo, wrong>>

Unset == -1
None == 0
Init == h = <<>> /\ memo = Unset /\ wrong = FALSE

Fresh(d, w) == IF d <= GoodDns THEN d ELSE IF w <= GoodHttps THEN 100 + w ELSE None

Call(d, w) ==
  LET res == IF memo # Unset THEN memo ELSE Fresh(d, w)
  IN /\ h' = Append(h, <<d, w>>)
     /\ memo' = IF res # None \/ CacheFailures THEN res ELSE memo
     /\ wrong' = (wrong \/ (res = None /\ Fresh(d, w) # None))

(* all outcomes, or (simulating) a random one *)
Some(S, x) == IF Sample THEN {RandomElement(S)} ELSE S
Next == Len(h) < Calls /\ \E d \in Some(1..Dns, h), w \in Some(1..Https, h) : Call(d, w)
Spec == Init /\ [][Next]_vars
Inv == ~wrong
Dump == Len(h) = Calls /\ ~CacheFailures => CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.DUMP)
=============================================================================
