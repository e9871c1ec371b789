--------------------------------- MODULE TidTrace ---------------------------------
(***************************************************************************)
(* Judges recorded TID conversions (T02) and generator calls (T01).             *)
(* Numbers are given as decimal limbs (base 10000, most significant first), as   *)
(* TLC's integers are too small; characters as positions in the sorted alphabet, *)
(* -1 for any other character.                                                  *)
(***************************************************************************)
EXTENDS Tid, SequencesExt, TraceLib

VARIABLES l, s, bad
vars == <<l, s, bad>>

(* one long division of decimal limbs by B: quotient limbs and remainder *)
RECURSIVE DivB(_, _, _)
DivB(limbs, i, r) == IF i > Len(limbs) THEN <<<<>>, r>>
                     ELSE LET v == r * 10000 + limbs[i]
                              rest == DivB(limbs, i + 1, v % B)
                          IN <<<<v \div B>> \o rest[1], rest[2]>>
IsZero(limbs) == \A i \in DOMAIN limbs : limbs[i] = 0
RECURSIVE LimbDigits(_, _)
(* at most k digits; <<>> if the number does not fit *)
LimbDigits(limbs, k) ==
  IF k = 0 THEN <<>>
  ELSE LET d == DivB(limbs, 1, 0) IN Append(LimbDigits(d[1], k - 1), d[2])
RECURSIVE Fits(_, _)
Fits(limbs, k) == IF k = 0 THEN IsZero(limbs) ELSE Fits(DivB(limbs, 1, 0)[1], k - 1)

Digits(limbs) == LimbDigits(limbs, W)
(* fewer than 53 bits: ten digits and three bits *)
InRange(e) == ~e.neg /\ Fits(e.num, W) /\ Digits(e.num)[1] < 8
ClockOk(c) == c \in 0..1023

FailEnc(e) ==
  LET right == /\ IsDigits(e.tid, W + C)
               /\ SubSeq(e.tid, 1, W) = Digits(e.num)
               /\ SubSeq(e.tid, W + 1, W + C) \in ClockDigits(e.clock)
  IN IF e.r = "hang" THEN {"T02.hang"}
     ELSE IF InRange(e) /\ ClockOk(e.clock)
     THEN Chk("T02.rejected", e.r = "ok") \cup Chk("T02.encoding", e.r = "ok" => right)
     ELSE Chk("T02.truncated", e.r = "ok" => (~e.neg /\ Fits(e.num, W) /\ ClockOk(e.clock) /\ right))

FailDec(e) ==
  LET right == ~e.neg /\ Fits(e.num, W) /\ Digits(e.num) = SubSeq(e.tid, 1, W)
  IN IF e.r = "hang" THEN {"T02.hang"}
     ELSE IF ~(e.kind \in {"str", "bytes"} /\ IsDigits(e.tid, W + C))
     THEN Chk("T02.malformed-accepted", e.r # "ok")
     ELSE IF e.tid[1] < 8
     THEN Chk("T02.undecoded", e.r = "ok") \cup Chk("T02.decoding", e.r = "ok" => right)
     ELSE Chk("T02.decoding", e.r = "ok" => right)

Returned == {s.out[i] : i \in DOMAIN s.out}
FailRet(e) ==
  IF e.r # "ok" THEN {"T01." \o e.r}
  ELSE Chk("T01.valid", IsDigits(e.tid, W + C) /\ e.tid[1] < 8)
       \cup Chk("T01.repeated", \A o \in Returned : o.rank # e.rank)
       \cup Chk("T01.backward", \A o \in Returned : o.id \in s.before[e.id] => o.rank < e.rank)
       \cup Chk("T01.behind-clock", e.n >= e.lo)
       \cup Chk("T01.sorts", \A o \in Returned : (o.n < e.n) = (o.rank < e.rank))

Failing(e) ==
  CASE e.op = "enc" -> FailEnc(e)
    [] e.op = "dec" -> FailDec(e)
    [] e.op = "ret" -> FailRet(e)
    [] e.op = "stuck" -> {"T01.hang"}
    [] OTHER -> {}

Effect(e) ==
  CASE e.op = "init" -> [before |-> << >>, out |-> <<>>]
    [] e.op = "call" -> [s EXCEPT !.before = (e.id :> {o.id : o \in Returned}) @@ @]
    [] e.op = "ret" /\ e.r = "ok" -> [s EXCEPT !.out = Append(@, [id |-> e.id, n |-> e.n, rank |-> e.rank])]
    [] OTHER -> s

TraceInit == l = 1 /\ s = [before |-> << >>, out |-> <<>>] /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ bad' = bad \cup {<<l, n>> : n \in New(bad, Failing(Trace[l]))}
             /\ s' = Effect(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_vars
Verdict == l = Len(Trace) + 1 => JsonSerialize(IOEnv.OUT, SetToSeq(bad))
=============================================================================
