------------------------------ MODULE PlcTrace ------------------------------
(* Traces of the real did:plc functions against a conforming directory.

   Events: init {dflt}; call {d, c}; get {d, ok}; post {d, op, shape, derived, ok, stored};
   foreign {d, op, stored}; ret {d, r, exc, ...}.  `ok` is whether the caller got a success,
   `stored` whether the directory stored the operation.                                *)
EXTENDS PlcDir, TraceLib, SequencesExt

VARIABLES l, s, bad
vars == <<l, s, bad>>

NewSk == 100
NewRk == 200

Init0 == [logs |-> [x \in {} |-> <<>>], dflt |-> "", d |-> 0, c |-> [kind |-> ""], posts |-> 0, faulty |-> FALSE,
          down |-> FALSE, raced |-> FALSE, op |-> [sk |-> 0], stored |-> FALSE, valid |-> FALSE, want |-> 0]

Log(d) == IF d \in DOMAIN s.logs THEN s.logs[d] ELSE <<>>
Mk(e) == [prev |-> e.op.prev, rot |-> e.op.rot, by |-> AsSet(e.op.by), aka |-> e.op.aka, pds |-> e.op.pds,
          sk |-> e.op.sk, null |-> FALSE]
ValidCall == s.c.bad = "" /\ Valid(s.c, Log(s.d))
(* the log at the time of the call: races come later *)
ValidNow(e) == e.c.bad = "" /\ Valid(e.c, Log(e.d))

FailPost(e) ==
  LET op == Mk(e) lg == Log(e.d) IN
  Chk("P01.stand-in", (e.stored => Accepts(lg, op)) /\ (e.ok => e.stored))
  \cup Chk("P01.more-than-one", s.posts = 0)
  \cup Chk("P01.wrong-did", e.d = s.d)
  \cup Chk("P01.shape", e.shape)
  \cup Chk("P01.signature", s.valid => op.by # {})
  \cup Chk("P01.sent-invalid", s.c.bad = "" /\ (s.c.kind = "rollback" => s.valid))
  \cup Chk("P01.sent-blind", ~s.faulty)
  (* replacing the rotation key while creating cannot be asked for, or must work *)
  \cup Chk("P01.refused", s.c.kind = "create" => Accepts(lg, op))
  \cup (IF ~s.valid THEN {}
        ELSE Chk("P01.derived", s.c.kind = "create" => e.derived)
             \cup Chk("P01.refused", s.raced \/ Accepts(lg, op))
             \cup Chk("P01.prev", s.c.kind # "create" /\ ~s.raced => op.prev = HeadIx(lg))
             \cup Chk("P01.handle", op.aka # <<>> /\ s.want.aka # <<>> /\ op.aka[1] = s.want.aka[1])
             \cup Chk("P01.aliases", op.aka = s.want.aka)
             \cup Chk("P01.endpoint", op.pds = s.want.pds)
             \cup Chk("P01.signing-key", op.sk = s.want.sk)
             \cup Chk("P01.rotation-keys", op.rot = s.want.rot))

FailRet(e) ==
  IF e.r = "hang" THEN {"P01.hang"}
  ELSE IF e.r = "ok"
  THEN Chk("P01.not-sent", s.posts > 0)
       \cup Chk("P01.false-success", s.posts > 0 => s.stored /\ ~s.faulty)
       \cup Chk("P01.bad-accepted", s.c.bad = "")
       \cup Chk("P01.returned", e.returned)
       \cup (IF s.posts = 0 \/ ~e.returned THEN {}
             ELSE Chk("P01.returned-did", e.did)
                  \cup Chk("P01.returned-doc", /\ e.docshape /\ e.aka = s.op.aka /\ e.pds = s.op.pds
                                               /\ e.sk = s.op.sk)
                  \cup Chk("P01.read-back", /\ e.handle = s.op.aka[1] /\ e.rsk = s.op.sk)
                  \cup Chk("P01.returned-keys", s.c.kind # "rollback" => e.ksk = s.op.sk /\ e.krk \in s.op.by))
  ELSE Chk("P01.failed", s.faulty \/ s.raced \/ ~s.valid)
       \cup Chk("P01.error", s.down /\ s.c.bad = "" => e.request)

Failing(e) ==
  CASE e.ev = "post" -> FailPost(e)
    [] e.ev = "foreign" -> Chk("P01.stand-in", e.stored = Accepts(Log(e.d), Mk(e)))
    [] e.ev = "get" -> Chk("P01.wrong-url", e.known)
    [] e.ev = "ret" -> FailRet(e)
    [] OTHER -> {}

SetLog(d, lg) == [x \in DOMAIN s.logs \cup {d} |-> IF x = d THEN lg ELSE s.logs[x]]

Effect(e) ==
  CASE e.ev = "init" -> [Init0 EXCEPT !.dflt = e.dflt]
    [] e.ev = "call" ->
         [s EXCEPT !.d = e.d, !.c = e.c, !.posts = 0, !.faulty = FALSE, !.down = FALSE, !.raced = FALSE, !.stored = FALSE,
                   !.valid = ValidNow(e),
                   !.want = IF ValidNow(e) THEN Asked(e.c, Log(e.d), s.dflt) ELSE 0]
    [] e.ev = "get" -> [s EXCEPT !.faulty = @ \/ ~e.ok, !.down = @ \/ e.down]
    [] e.ev = "post" ->
         [s EXCEPT !.posts = @ + 1, !.faulty = @ \/ ~e.ok, !.stored = e.stored, !.op = Mk(e), !.down = @ \/ e.down,
                   !.logs = IF e.stored THEN SetLog(e.d, Add(Log(e.d), Mk(e))) ELSE @]
    [] e.ev = "foreign" ->
         [s EXCEPT !.raced = TRUE, !.logs = IF e.stored THEN SetLog(e.d, Add(Log(e.d), Mk(e))) ELSE @]
    [] OTHER -> s

TraceInit == l = 1 /\ s = Init0 /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ bad' = bad \cup {<<l, n>> : n \in New(bad, Failing(Trace[l]))}
             /\ s' = Effect(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_vars
Verdict == l = Len(Trace) + 1 => JsonSerialize(IOEnv.OUT, SetToSeq(bad))
=============================================================================
