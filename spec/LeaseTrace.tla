----------------------------- MODULE LeaseTrace -----------------------------
(* Traces of the real Lease against the lease specification.  Times are in milliseconds of
   the virtual clock.  The server's state is computed here, from the calls that reached it,
   as memcached would: a key exists until its expiration or until it is deleted.

   Events (w: the worker, key: the lease's key, at: the time):
     start    w begins to acquire: retries and delay as configured
     add      an add reached the server; ok: its answer; life: milliseconds, 0 for ever
     set      the value was replaced, whatever its owner (set, replace, cas, touch)
     delete   a delete reached the server
     acquired acquire returned; until: the lease's own expires_at
     failed   acquire raised; exc: what; until: expires_at or -1
     exit     w leaves the block (or calls release)
     released the release returned or raised (exc); in: what the block raised, out: what
              came out of it                                                        *)
EXTENDS TraceLib, SequencesExt

VARIABLES l, s, bad
vars == <<l, s, bad>>

Nobody == ""
NoKey == [owner |-> Nobody, exp |-> -1]
Empty0 == [x \in {} |-> 0]

Init0 == [keys |-> Empty0, w |-> Empty0]

KeyOf(k) == IF k \in DOMAIN s.keys THEN s.keys[k] ELSE NoKey
Live(k, t) == KeyOf(k).owner # Nobody /\ (KeyOf(k).exp = -1 \/ KeyOf(k).exp > t)
Owner(k, t) == IF Live(k, t) THEN KeyOf(k).owner ELSE Nobody

W(e) == s.w[e.w]

(* workers other than w that are inside a lease on k that has not expired *)
Holders(k, w, t) == {v \in DOMAIN s.w : v # w /\ s.w[v].key = k /\ s.w[v].in /\ t < s.w[v].until}

Failing(e) ==
  CASE e.op = "add" ->
         Chk("L01.stand-in", e.ok = ~Live(e.key, e.at))
         \cup Chk("L01.other-key", e.key = W(e).key)
         \cup Chk("L01.no-wait", W(e).adds > 0 => e.at >= W(e).last + W(e).delay)
    [] e.op = "delete" ->
         Chk("L01.freed-other", Owner(e.key, e.at) \in {Nobody, e.w})
    [] e.op = "set" ->
         Chk("L01.overwrote-other", Owner(e.key, e.at) \in {Nobody, e.w})
    [] e.op = "acquired" ->
         Chk("L01.acquired-without-add", W(e).won)
         \cup Chk("L01.two-holders", e.at < e.until => Holders(e.key, e.w, e.at) = {})
         \cup Chk("L01.unprotected", KeyOf(e.key).owner = e.w =>
                     KeyOf(e.key).exp = -1 \/ KeyOf(e.key).exp >= e.until)
         (* the lease runs for its expiration from some moment of the attempt that succeeded *)
         \cup Chk("L01.expiry", e.until \in (W(e).from + W(e).life)..(e.at + W(e).life))
         \cup Chk("L01.never-expires", KeyOf(e.key).owner = e.w =>
                     KeyOf(e.key).exp # -1 /\ KeyOf(e.key).exp <= e.at + W(e).life + 1000)
    [] e.op = "failed" ->
         Chk("L01.failed-but-added", ~W(e).won \/ e.fault)
         \cup Chk("L01.failed-but-held", e.until = -1)
         \cup Chk("L01.attempts", e.fault \/ W(e).adds = W(e).retries + 1)
         \cup Chk("L01.error", e.fault \/ e.exc = "RuntimeError")
    [] e.op = "released" ->
         Chk("L01.not-freed", e.fault \/ (Owner(e.key, e.at) = e.w => W(e).until < W(e).exit))
         \cup Chk("L01.exception", e.fault \/ e.in = e.out)
    [] e.op = "hang" -> {"L01.hang"}
    [] OTHER -> {}

Put(k, r) == [x \in DOMAIN s.keys \cup {k} |-> IF x = k THEN r ELSE s.keys[x]]
SetW(w, r) == [x \in DOMAIN s.w \cup {w} |-> IF x = w THEN r ELSE s.w[x]]
Exp(e) == IF e.life = 0 THEN -1 ELSE e.at + e.life

Effect(e) ==
  CASE e.op = "init" -> Init0
    [] e.op = "start" ->
         [s EXCEPT !.w = SetW(e.w, [key |-> e.key, adds |-> 0, won |-> FALSE, in |-> FALSE, until |-> -1,
                                    from |-> e.at, exit |-> -1, last |-> 0, retries |-> e.retries,
                                    delay |-> e.delay, life |-> e.life])]
    [] e.op = "add" ->
         [s EXCEPT !.w[e.w].adds = @ + 1, !.w[e.w].won = @ \/ e.ok, !.w[e.w].last = e.at,
                   !.w[e.w].from = IF e.ok THEN @ ELSE e.at,
                   !.keys = IF Live(e.key, e.at) THEN @
                            ELSE Put(e.key, [owner |-> e.w, exp |-> Exp(e)])]
    [] e.op = "set" ->
         [s EXCEPT !.keys = IF e.life < 0 THEN Put(e.key, NoKey)
                            ELSE Put(e.key, [owner |-> e.w, exp |-> Exp(e)])]
    [] e.op = "delete" -> [s EXCEPT !.keys = Put(e.key, NoKey)]
    [] e.op = "acquired" -> [s EXCEPT !.w[e.w].in = TRUE, !.w[e.w].until = e.until]
    [] e.op = "exit" -> [s EXCEPT !.w[e.w].in = FALSE, !.w[e.w].exit = e.at]
    [] OTHER -> s

TraceInit == l = 1 /\ s = Init0 /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ bad' = bad \cup {<<l, n>> : n \in New(bad, Failing(Trace[l]))}
             /\ s' = Effect(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_vars
Verdict == l = Len(Trace) + 1 => JsonSerialize(IOEnv.OUT, SetToSeq(bad))
=============================================================================
