------------------------------- MODULE FireCursor -------------------------------
(***************************************************************************)
(* The subscription endpoint when nothing is in flight: after every step the   *)
(* whole system is left to settle, so that what every subscriber has received   *)
(* is a function of the log, the window and the cursor it came with.            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, TraceLib

VARIABLES l, bad, last, window, stored, subs, started
vars == <<l, bad, last, window, stored, subs, started>>

Pairs(t) == [s \in {r[1] : r \in AsSet(t)} |-> (CHOOSE r \in AsSet(t) : r[1] = s)[2]]
WindowStart == Max({last - window, 0})

(* what a subscriber is owed: how it starts, and from which number on *)
Join(e) ==
  IF e.nocursor THEN [kind |-> "live", from |-> last + 1]
  ELSE IF e.cursor > last THEN [kind |-> "future", from |-> 0]
  ELSE IF e.cursor < WindowStart THEN [kind |-> "outdated", from |-> WindowStart]
  ELSE [kind |-> "cursor", from |-> e.cursor]

Frames(s) == CASE s.kind = "future" -> << <<-1, "", "FutureCursor">> >>
               [] s.kind = "outdated" -> << <<1, "#info", "OutdatedCursor">> >>
               [] OTHER -> <<>>
Items(s, log, on) ==
  IF s.kind = "future" \/ ~on THEN <<>>
  ELSE [i \in 1..Cardinality({n \in DOMAIN log : n >= s.from}) |->
          LET n == SetToSortSeq({m \in DOMAIN log : m >= s.from}, <)[i] IN <<n, log[n]>>]

Subs(e) == IF e.op = "subscribe" THEN Append(subs, Join(e)) ELSE subs
Log(e) == IF e.op = "init" THEN Pairs(e.stored)
          ELSE IF e.op = "events" THEN stored @@ Pairs(SelectSeq(e.events, LAMBDA x : x[2] # 0))
          ELSE stored
Started(e) == started \/ e.op = "start"

Failing(e) ==
  CASE e.op \in {"start", "events", "subscribe"} ->
         LET S == Subs(e)
         IN  Chk("F04.subscribers", Len(e.subs) = Len(S))
             \cup Chk("F04.frames", \A i \in DOMAIN S : (Started(e) \/ S[i].kind = "future") =>
                                       e.subs[i].frames = Frames(S[i]))
             \cup Chk("F04.stream", \A i \in DOMAIN S : e.subs[i].items = Items(S[i], Log(e), Started(e)))
             \cup Chk("F04.stays-open", \A i \in DOMAIN S : e.subs[i].open = (S[i].kind # "future"))
             \cup Chk("F04.raised", \A i \in DOMAIN S : e.subs[i].exc = "")
    [] e.op = "end" -> Chk("F04.alive", e.finished /\ e.crashed = <<>>)
    [] OTHER -> {}

TraceInit == l = 1 /\ bad = {} /\ last = 0 /\ window = 0 /\ stored = <<>> /\ subs = <<>> /\ started = FALSE
TraceNext ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
     IN /\ bad' = bad \cup {<<l, n>> : n \in New(bad, Failing(e))}
        /\ last' = CASE e.op = "init" -> e.last
                     [] e.op = "events" -> Max({last} \cup {x[1] : x \in AsSet(e.events)})
                     [] OTHER -> last
        /\ window' = IF e.op = "init" THEN e.window ELSE window
        /\ stored' = Log(e)
        /\ subs' = IF e.op = "init" THEN <<>> ELSE Subs(e)
        /\ started' = IF e.op = "init" THEN FALSE ELSE Started(e)
  /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
Verdict == l = Len(Trace) + 1 => JsonSerialize(IOEnv.OUT, SetToSeq(bad))
=============================================================================
