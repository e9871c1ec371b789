---------------------------- MODULE ResolveTrace ----------------------------
(* Calls of the real resolvers, each with the outcome that DNS and HTTPS would give during
   it, the requests it made and what it returned:
     fn     "handle", "resolve", "plc" or "web"
     input, str (whether it is a string at all)
     recs   TXT records, <<>> if DNS fails;  status, body: of HTTPS, 0 if it fails
     doc    what the body says as JSON, "" if it is not JSON
     reqs   <<"dns" or "get", target>>
     r      "ok", "none", "raised"; val; exc                                        *)
EXTENDS Resolve, TraceLib, SequencesExt

VARIABLES l, s, bad
vars == <<l, s, bad>>

Init0 == [good |-> {}, host |-> ""]

Gets(e) == {e.reqs[i][2] : i \in {j \in DOMAIN e.reqs : e.reqs[j][1] = "get"}}
Queries(e) == {e.reqs[i][2] : i \in {j \in DOMAIN e.reqs : e.reqs[j][1] = "dns"}}
Once(e) == \A i, j \in DOMAIN e.reqs : i # j => e.reqs[i] # e.reqs[j]

Rejected(e) == Chk("D01.accepted", e.r = "raised" /\ e.value)
               \cup Chk("D01.requests-for-bad", e.reqs = <<>>)

FailHandle(e) ==
  IF ~e.str \/ ~ValidHandle(e.input) THEN Rejected(e)
  ELSE LET v == IF e.r = "none" THEN "" ELSE e.val
           want == HandleResult(e.recs, e.status, e.body)
       IN Chk("D01.raised", e.r # "raised")
          \cup Chk("D01.dns-name", Queries(e) \subseteq {DnsName(e.input), DnsName(e.input) \o "."})
          \cup Chk("D01.handle-url", Gets(e) \subseteq {HandleUrl(e.input)})
          \cup Chk("D01.repeated", Once(e))
          \cup (IF e.r = "raised" THEN {}
                ELSE IF e.reqs = <<>>
                THEN Chk("D01.cached-failure", v # "")
                     \cup Chk("D01.cached-other", v # "" => <<"handle", e.input, v>> \in s.good)
                ELSE IF DnsDids(e.recs) # {} THEN Chk("D01.dns", v \in want)
                ELSE IF want # {""} THEN Chk("D01.https", v \in want)
                ELSE Chk("D01.not-a-did", v = ""))

Doc(e) == IF e.fn = "plc" THEN IsPlc(e.input) ELSE IF e.fn = "web" THEN IsWeb(e.input)
          ELSE IsPlc(e.input) \/ IsWeb(e.input)

FailDoc(e) ==
  IF ~e.str \/ ~Doc(e) THEN Rejected(e)
  ELSE LET okay == e.status \in 200..299 /\ e.doc # ""
       IN Chk("D01.url", Gets(e) \subseteq {DocUrl(e.input, s.host)} /\ Queries(e) = {})
          \cup Chk("D01.repeated", Once(e))
          \cup (IF e.reqs = <<>>
                THEN Chk("D01.cached-failure", e.r = "ok")
                     \cup Chk("D01.cached-other", e.r = "ok" => <<"doc", e.input, e.val>> \in s.good)
                ELSE Chk("D01.doc", okay => e.r = "ok" /\ e.val = e.doc)
                     \cup Chk("D01.failure-accepted", ~okay => e.r = "raised")
                     \cup Chk("D01.error", ~okay /\ e.r = "raised" => e.request))

Failing(e) ==
  CASE e.ev = "call" /\ e.r = "hang" -> {"D01.hang"}
    [] e.ev = "call" /\ e.fn = "handle" -> FailHandle(e)
    [] e.ev = "call" -> FailDoc(e)
    [] OTHER -> {}

Effect(e) ==
  CASE e.ev = "init" -> [Init0 EXCEPT !.host = e.host]
    [] e.ev = "call" /\ e.r = "ok" ->
         [s EXCEPT !.good = @ \cup {<<IF e.fn = "handle" THEN "handle" ELSE "doc", e.input, e.val>>}]
    [] OTHER -> s

TraceInit == l = 1 /\ s = Init0 /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ bad' = bad \cup {<<l, n>> : n \in New(bad, Failing(Trace[l]))}
             /\ s' = Effect(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_vars
Verdict == l = Len(Trace) + 1 => JsonSerialize(IOEnv.OUT, SetToSeq(bad))
=============================================================================
